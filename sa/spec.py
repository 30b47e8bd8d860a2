"""The properties: what they say, where they are anchored, and which entry points of the
source form the cone each one is decided on."""

PB = "dataprofiler/profilers/"
NUM = PB + "numerical_column_stats.py"
BLD = PB + "profile_builder.py"
BCP = PB + "base_column_profilers.py"
OPT = PB + "profiler_options.py"
UTL = PB + "profiler_utils.py"
CMP = PB + "column_profile_compilers.py"
LAB = "dataprofiler/labelers/"
RDR = "dataprofiler/data_readers/"
GEN = "not reached by any fixed set of examples"

# short module names used in patterns
M = {
    "num": "profilers.numerical_column_stats:NumericStatsMixin.",
    "int": "profilers.int_column_profile:IntColumn.",
    "flt": "profilers.float_column_profile:FloatColumn.",
    "txt": "profilers.text_column_profile:TextColumn.",
    "cat": "profilers.categorical_column_profile:CategoricalColumn.",
    "dat": "profilers.datetime_column_profile:DateTimeColumn.",
    "ord": "profilers.order_column_profile:",
    "dlc": "profilers.data_labeler_column_profile:DataLabelerColumn.",
    "bcp": "profilers.base_column_profilers:",
    "cmp": "profilers.column_profile_compilers:",
    "utx": "profilers.unstructured_text_profile:TextProfiler.",
    "ulb": "profilers.unstructured_labeler_profile:UnstructuredLabelerProfile.",
    "scp": "profilers.profile_builder:StructuredColProfiler.",
    "bpr": "profilers.profile_builder:BaseProfiler.",
    "upr": "profilers.profile_builder:UnstructuredProfiler.",
    "spr": "profilers.profile_builder:StructuredProfiler.",
    "prf": "profilers.profile_builder:Profiler.",
    "opt": "profilers.profiler_options:",
    "utl": "profilers.profiler_utils:",
    "his": "profilers.histogram_utils:",
    "gra": "profilers.graph_profiler:GraphProfiler.",
    "rep": "profilers.helpers.report_helpers:",
    "dec": "profilers.json_decoder:",
    "enc": "profilers.json_encoder:",
    "bdl": "labelers.base_data_labeler:",
    "bmo": "labelers.base_model:",
    "cnn": "labelers.character_level_cnn_model:",
    "clt": "labelers.char_load_tf_model:",
    "cnm": "labelers.column_name_model:ColumnNameModel.",
    "rgx": "labelers.regex_model:RegexModel.",
    "dpc": "labelers.data_processing:",
    "dls": "labelers.data_labelers:",
    "lut": "labelers.labeler_utils:",
    "crp": "labelers.classification_report_utils:",
    "rd": "data_readers.",
    "du": "data_readers.data_utils:",
    "val": "validators.base_validators:",
}


class Prop:
    def __init__(self, id, title, statement, over, qtext, why, files, mech, entries, exclude=(),
                 cells=None, notcells=None, rules=(), state=(), observe=(), priv=True):
        self.id, self.title, self.statement = id, title, statement
        self.over, self.qtext, self.why = over, qtext, why
        self.files, self.mech = files, mech
        self.entries, self.exclude = entries.split(), list(exclude)
        self.cells, self.notcells = cells, notcells
        self.rules, self.state, self.observe = list(rules), list(state), list(observe)

    def patterns(self):
        for e in self.entries:
            k, rest = e.split("/", 1)
            yield M[k] + rest


PROPS = []


def P(*a, **k):
    PROPS.append(Prop(*a, **k))


P("M01", "Merging numeric column profiles equals profiling the combined data",
  "When two profiles of integer, float or text columns are added, every statistic of the result (counts, minimum, maximum, sum, moments, zeros, negatives, precision, histogram and quantile state) is combined from both operands with that statistic's own combination rule. A side that has seen no data, or has a statistic disabled, contributes nothing and removes nothing it should not; enabled statistics of the result are those enabled in both.",
  ["inputs", "histories", "configurations"],
  "every pair of column profiles, however they were built up, and every option combination",
  "tests add a few hand-made pairs and compare selected keys; they do not cover every statistic for every pair of histories and option settings",
  [PB + "int_column_profile.py", PB + "float_column_profile.py", PB + "text_column_profile.py", NUM, BCP],
  [("column merge operators and shared merge helper", NUM + ":NumericStatsMixin._add_helper"),
   ("base merge helper", BCP + ":BaseColumnProfiler._add_helper")],
  "int/__add__ flt/__add__ txt/__add__ num/_add_helper* num/_merge_biased* num/_assimilate_histogram "
  "num/_regenerate_histogram num/_merge_histogram bcp/*._add_helper bcp/*._merge_calculations bcp/*._combine_unique_sets",
  notcells=r"^(raise|warn|arg\d|self)",
  observe=["profile + profile", "report()"])

P("M02", "Merging non-numeric column profiles and compilers combines both sides",
  "When two profiles of categorical, datetime, order, label or free-text content, or two bundles of column profiles, are added, the result's categories, counts, formats, order, label totals, vocabularies, words, null positions, samples and metadata come from both operands under the rule for that statistic. Nothing held by only one operand is lost and nothing is counted twice.",
  ["inputs", "histories", "configurations"],
  "every pair of profiles and every option combination",
  "tests sample a few pairs per class; the claim is for every pair of histories and for every stored attribute",
  [PB + "categorical_column_profile.py", PB + "datetime_column_profile.py", PB + "order_column_profile.py",
   PB + "data_labeler_column_profile.py", PB + "unstructured_text_profile.py",
   PB + "unstructured_labeler_profile.py", CMP, BLD],
  [("class merge operators", PB + "*.py:__add__"), ("dictionary merge", UTL + ":add_nested_dictionaries")],
  "cat/__add__ cat/_merge_categories_cms dat/__add__ ord/*.__add__ ord/*._merge_order ord/*._is_* dlc/__add__ "
  "utx/__add__ utx/_merge_* ulb/__add__ cmp/*.__add__ scp/__add__ utl/add_nested_dictionaries utl/_combine_unique_sets",
  notcells=r"^(raise|warn|arg\d|self)",
  observe=["profile + profile"])

P("M03", "Merging dataset profiles combines both datasets column by column",
  "Adding two dataset profiles yields totals, row-level null, unique and duplicate information, correlation, null replication, samples, encoding and file type that account for both datasets. Columns are paired by name through one schema mapping, independent of the order in which either dataset lists them, and merging a list of profiles merges each exactly once.",
  ["inputs", "histories", "configurations"],
  "every pair of compatible dataset profiles, every column order and every option setting",
  "tests merge a few small frames, almost always with identical column order",
  [BLD, UTL], [("dataset merge operators", BLD + ":StructuredProfiler.__add__"),
               ("profile list merge", UTL + ":merge_profile_list")],
  "spr/__add__ upr/__add__ bpr/__add__ spr/_merge_* spr/_get_and_validate_schema_mapping utl/merge utl/merge_profile_list utl/chunk",
  notcells=r"^(raise|warn|arg\d|self)", rules=[], observe=["profile + profile"])

P("M04", "Combining, comparing, reporting and saving leave their inputs untouched",
  "Adding, comparing, reporting or saving profiles does not change any operand or any container the caller passed in, and the result shares no mutable statistic with an operand, so that updating the result later cannot change an operand and vice versa. Readers likewise do not modify option dictionaries, data or buffers handed to them.",
  ["inputs", "histories"],
  "every operand history followed by every later update of result or operand",
  "tests look at the result, rarely at the operands afterwards, and almost never update the result and re-read the operand",
  [BLD, BCP, NUM, CMP, PB + "graph_profiler.py", RDR + "data.py"],
  [("copies made in merge operators", PB + "*.py:__add__")],
  "bcp/*", cells=r"^$", rules=["no_alias", "no_mutation"], observe=["operands after a + b, a.diff(b), a.report(), a.save()"])

P("M05", "Incompatible or invalid operands are rejected, before anything changes",
  "Adding or comparing profiles of different kinds, of incompatible schemas, label sets, bin methods or sketch shapes, and updating with data of the wrong type, raises the documented error or warning exactly when the operands are incompatible. The decision is made before any state is modified, so a rejected operation leaves every object as it was.",
  ["inputs", "configurations"],
  "every pair of operands and every data argument",
  "tests try a few incompatible pairs and never check the state left behind for all of them",
  [BLD, BCP, NUM, CMP, PB + "data_labeler_column_profile.py", PB + "graph_profiler.py"],
  [("type and schema checks at the head of merge, diff and update", BLD + ":StructuredProfiler._add_error_checks")],
  "int/__add__ flt/__add__ txt/__add__ cat/__add__ dat/__add__ ord/*.__add__ dlc/__add__ dlc/assert_equal_conditions "
  "utx/__add__ ulb/__add__ cmp/*.__add__ scp/__add__ spr/__add__ upr/__add__ bpr/__add__ gra/__add__ bpr/_add_error_checks "
  "spr/_add_error_checks upr/_add_error_checks spr/_get_and_validate_schema_mapping "
  "int/diff flt/diff txt/diff cat/diff dat/diff ord/*.diff dlc/diff num/diff bcp/*.diff cmp/*.diff utx/diff ulb/diff "
  "scp/diff spr/diff upr/diff bpr/diff gra/diff bpr/update_profile upr/update_profile spr/update_profile gra/update prf/__new__ "
  "spr/_update_profile_from_chunk upr/_update_profile_from_chunk scp/update_profile utl/merge_profile_list "
  "num/_add_helper* cat/_merge_categories_cms cmp/*.update_profile",
  cells=r"^raise ", rules=["reject_before_change"], observe=["exceptions and state after them"])

P("U01", "Numeric statistics accumulate correctly over any split into batches",
  "Feeding a numeric or text column in batches leaves the same accumulated count, minimum, maximum, sum, moments, zero and negative counts, precision and histogram state that the whole column implies: each batch is combined with what was seen before, in an order in which every statistic uses the pre-batch values it needs. A statistic whose value is zero counts as a value, not as missing.",
  ["inputs", "histories"],
  "every column of values and every way to cut it into batches, including empty ones",
  "tests use one or two batches with non-zero, well-behaved numbers",
  [NUM, PB + "int_column_profile.py", PB + "float_column_profile.py", PB + "text_column_profile.py", BCP],
  [("streaming update of statistics", NUM + ":NumericStatsMixin._get_*"), ("biased moment merging", NUM)],
  "int/update int/_update_helper int/_is_each_row_int flt/update flt/_update* flt/_get_float_precision flt/_is_each_row_float "
  "txt/update txt/_update* num/_update* num/update num/_get_min num/_get_max num/_get_sum num/_get_variance num/_get_skewness "
  "num/_get_kurtosis num/_get_histogram_and_quantiles num/_get_num_zeros num/_get_num_negatives num/_merge_biased* "
  "num/_correct_bias* num/_update_histogram num/_merge_histogram num/_get_histogram num/_histogram_to_array "
  "num/is_float num/is_int num/np_type_to_type bcp/*._update* bcp/*._perform_property_calcs bcp/*._timeit utl/biased_skew utl/biased_kurt",
  notcells=r"^(raise|warn)", observe=["update(batch)", "report()"])

P("U02", "Non-numeric column state accumulates over any split into batches",
  "Feeding categorical, datetime, ordered, labelled or free-text content in batches combines each batch with what was seen before: category counts, stop conditions, matched formats and earliest and latest dates, order state, label votes, vocabularies, word counts and entity counts describe all batches together, whichever way the data was cut.",
  ["inputs", "histories"],
  "every sequence of batches",
  "tests feed one or two batches with a handful of values",
  [PB + "categorical_column_profile.py", PB + "datetime_column_profile.py", PB + "order_column_profile.py",
   PB + "data_labeler_column_profile.py", PB + "unstructured_text_profile.py", PB + "unstructured_labeler_profile.py"],
  [("per class update helpers", PB + "*.py:_update_helper")],
  "cat/update cat/_update* cat/_get_categories* cat/_check_stop* cat/_merge_categories_cms dat/update dat/_update* dat/_get_datetime_profile "
  "dat/_validate_datetime dat/_replace_day_suffix dat/_is_subset* ord/*.update ord/*._update* ord/*._get_data_order ord/*.__lt__ ord/*._merge_order "
  "dlc/update dlc/_update* utx/update utx/_update* ulb/update ulb/_update* ulb/_get_percentages cmp/*.update_profile",
  notcells=r"^(raise|warn)", observe=["update(batch)", "report()"])

P("U03", "Dataset-level statistics account for every row of every batch",
  "Updating a dataset profile adds the batch's rows to the total row count, samples at least the required number of rows, sends each column's data to that column's profile, and updates row-hash uniqueness, rows with and of nulls, correlation, chi-square and null-replication figures from the same batch. Running with worker processes or without them gives the same figures for the same sampled rows.",
  ["inputs", "histories", "schedules", "configurations"],
  "every sequence of batches, frame shape, duplicated column names, sampling size and pool setting",
  "tests use small frames, mostly one batch, and compare a few figures",
  [BLD, UTL], [("chunk update", BLD + ":StructuredProfiler._update_profile_from_chunk"),
               ("row statistics", BLD + ":StructuredProfiler._update_row_statistics")],
  "spr/update_profile bpr/update_profile spr/_update* upr/_update* bpr/_update* bpr/_get_sample_size spr/_get_correlation* spr/_max* spr/_min* "
  "spr/_get_unique_row_ratio spr/_get_row* spr/_get_duplicate_row_count utl/partition utl/generate_pool utl/suggest_pool_size "
  "utl/auto_multiprocess_toggle utl/perform_chi_squared* utl/get_memory_size",
  notcells=r"^(raise|warn)", observe=["update_profile(batch)", "report()['global_stats']"])

P("U04", "Null cells are counted, located and kept out of typed statistics",
  "A cell that matches one of the configured null patterns is counted once, recorded under its null type with its position in the whole data, and never reaches the typed column statistics; every other cell does. Null counts, null ratio, null types and positions accumulate over batches, and empty text samples are excluded the same way.",
  ["inputs", "histories", "configurations"],
  "every column, null-pattern configuration, sampling and batch split",
  "tests use a few null markers at fixed positions",
  [BLD], [("cleaning step", BLD + ":StructuredColProfiler.clean_data_and_get_base_stats")],
  "scp/update_profile scp/update_column_profilers scp/_update_base_stats scp/clean_data_and_get_base_stats scp/_get_sample_size "
  "upr/_clean_data_and_get_base_stats upr/_update_base_stats scp/__init__",
  notcells=r"^(raise|warn)", observe=["report()['data_stats'][i]['statistics']['null_*']"])

P("U05", "Derived statistics are computed from the accumulated state by their definition",
  "Mean, variance, standard deviation, skewness, kurtosis, mode, median, median absolute deviation, quantiles, ratios, uniqueness, impurity, unalikeability and selected data type are a function of the accumulated state alone, are missing or NaN exactly when there is not enough data, and reading them changes nothing. Bin layout follows the configured method and the observed minimum, maximum and size.",
  ["inputs", "histories", "configurations"],
  "every accumulated state, including empty, single-valued and zero-valued ones",
  "tests evaluate them on a few states",
  [NUM, PB + "histogram_utils.py", PB + "categorical_column_profile.py"],
  [("statistic properties", NUM), ("bin width estimators", PB + "histogram_utils.py")],
  "num/mean num/mode num/median num/variance num/stddev num/skewness num/kurtosis num/median_abs_deviation num/_get_percentile "
  "num/_get_quantiles num/_estimate* num/_total_histogram* num/_histogram* num/_get_best* num/_fold* num/_select* num/_has_histogram "
  "num/_correct_bias* num/_get_histogram num/__getattribute__ num/__getitem__ his/* cat/gini_impurity cat/unalikeability cat/categories "
  "cat/categorical_counts cat/unique_ratio cat/unique_count cat/is_match int/data_type_ratio flt/data_type_ratio txt/data_type_ratio "
  "dat/data_type_ratio flt/precision cmp/*.selected_data_type dlc/reverse_label_mapping dlc/possible_data_labels dlc/rank_distribution "
  "dlc/sum_predictions dlc/data_label dlc/avg_predictions dlc/label_representation ulb/label_encoding spr/_get_unique_row_ratio "
  "spr/_get_row* spr/_get_duplicate_row_count rep/calculate_quantiles bcp/*.__getitem__",
  observe=["statistic properties", "report()"])

P("R01", "Every column report entry carries its own statistic",
  "In a column's report and profile, each key holds the value of the statistic it names, taken from the column it belongs to; every enabled statistic appears, and removing disabled statistics removes exactly those. The column report is assembled from the type, statistics and label sections without mixing them.",
  ["inputs", "configurations"],
  "every column state, option combination and report option",
  "tests check the presence of keys and a few values",
  [PB + "*_column_profile.py", CMP, BLD],
  [("profile and report methods", PB + "*.py:profile")],
  "int/profile int/report flt/profile flt/report txt/profile txt/report cat/profile cat/report dat/profile dat/report ord/*.profile ord/*.report "
  "dlc/profile dlc/report num/profile num/report bcp/*.profile bcp/*.report cmp/*.profile cmp/*.report scp/profile scp/report utx/profile utx/report "
  "ulb/profile ulb/report",
  notcells=r"^(raise|warn)", observe=["report()", "profile"])

P("R02", "The dataset report shows each figure in place and formats without changing it",
  "A dataset report holds each global figure under its own key and one entry per column in schema order. The output formats (pretty, serializable, flat, compact), the number of quantiles and the omitted keys change only presentation and selection as documented, not the figures or the profile they come from.",
  ["inputs", "configurations"],
  "every profile, report option, omit pattern and nesting",
  "tests check a few formats on a few reports",
  [BLD, PB + "helpers/report_helpers.py"], [("report preparation", PB + "helpers/report_helpers.py:_prepare_report")],
  "spr/report spr/profile upr/report upr/profile bpr/report bpr/profile rep/* ",
  notcells=r"^(raise|warn|arg\d)", observe=["Profiler.report(report_options)"])

P("D01", "A column difference compares the same statistic of both profiles, in order",
  "Comparing two column profiles puts under each key the difference of that same statistic between the first and the second profile, with first-minus-second orientation and the shared, only-first and only-second split for collections. Equal values are reported as unchanged, and tests for equal distribution use each side's own moments and sizes.",
  ["inputs", "configurations"],
  "every pair of comparable column profiles",
  "tests compare a few pairs, many of them symmetric or equal",
  [PB + "*_column_profile.py", NUM, UTL, CMP], [("difference helpers", UTL + ":find_diff_of_*"), ("class diffs", PB + "*.py:diff")],
  "int/diff flt/diff txt/diff cat/diff cat/_preprocess* dat/diff ord/*.diff dlc/diff num/diff num/_perform_t_test num/_preprocess_for_calculate_psi num/_calculate_psi "
  "bcp/*.diff cmp/*.diff utx/diff ulb/diff scp/diff utl/find_diff* utl/perform_chi* utl/Subtractable*",
  notcells=r"^(raise|warn|arg\d|self)", observe=["diff()"])

P("D02", "A dataset difference pairs the right columns and figures",
  "Comparing two dataset profiles puts under each global key the difference of that same figure between first and second, pairs columns by name through the schema when schemas match, lists columns present on one side only otherwise, and applies the requested report format to the result.",
  ["inputs", "configurations"],
  "every pair of dataset profiles and every schema relation",
  "tests compare a few small frames",
  [BLD], [("dataset diffs", BLD + ":StructuredProfiler.diff")],
  "spr/diff upr/diff bpr/diff gra/diff utl/find_diff_of_matrices utl/find_diff_of_dicts* utl/find_diff_of_lists*",
  notcells=r"^(raise|warn|arg\d|self)", observe=["Profiler.diff()"])

P("S01", "A saved profile loads back with all of its state",
  "Saving a profile in binary form and loading it restores every attribute later operations use, so that reporting, updating, merging and comparing the loaded profile behave as on the original. Saving, whether it succeeds or fails, leaves the saved profile complete and usable, and the data labeler is detached and re-attached around it.",
  ["inputs", "histories", "fault_sequences"],
  "every profile history, option setting and point of failure during the save",
  "tests compare a few attributes after a round trip and never fail the write",
  [BLD, PB + "graph_profiler.py"], [("save and load", BLD + ":BaseProfiler.save")],
  "spr/save upr/save bpr/save bpr/load bpr/_pkl_save_helper bpr/_json_save_helper bpr/_remove_data_labelers bpr/_restore_data_labelers prf/load "
  "gra/save gra/_save_helper gra/load utl/reload_labeler*",
  rules=["restore_on_failure"], observe=["save()", "load()"])

P("S02", "A profile serialised as JSON loads back with all of its state",
  "Writing a profile as JSON and reading it back restores every class, attribute, mapping key and value of the profile, its columns, statistics and options, with values in the type later operations need, and every serialised class can be decoded. Loading ignores nothing silently except what is documented.",
  ["inputs", "histories", "configurations"],
  "every profile history and option setting",
  "tests round-trip a few objects and compare selected attributes",
  [PB + "json_encoder.py", PB + "json_decoder.py", PB + "*.py"],
  [("encoder", PB + "json_encoder.py:ProfileEncoder.default"), ("decoder registry", PB + "json_decoder.py"),
   ("load_from_dict of every class", PB + "*.py")],
  "int/load_from_dict flt/load_from_dict txt/load_from_dict cat/load_from_dict dat/load_from_dict ord/*.load_from_dict dlc/load_from_dict bcp/*.load_from_dict "
  "cmp/*.load_from_dict scp/load_from_dict bpr/load_from_dict spr/load_from_dict upr/load_from_dict opt/*.load_from_dict dec/* enc/* "
  "num/_reformat* utl/reload_labeler* bpr/_json_save_helper",
  observe=["save(save_method='json')", "load()"])

P("O01", "Options decide exactly which profiles and calculations run",
  "A profile, statistic or row-level calculation runs and is reported if and only if its option is enabled, and options that carry a value (bin count, quantiles, thresholds, sketch sizes, case sensitivity, stop words, null values, columns) reach the calculation they name. Option containers report the enabled set that matches their flags.",
  ["configurations"],
  "every combination of option values",
  "tests toggle options one at a time on a few columns",
  [OPT, BCP, CMP, PB + "*.py"], [("option filter", BCP + ":BaseColumnProfiler._filter_properties_w_options")],
  "int/__init__ flt/__init__ txt/__init__ cat/__init__ dat/__init__ ord/*.__init__ dlc/__init__ num/__init__ bcp/*.__init__ bcp/*._filter* "
  "bcp/*._perform_property_calcs bcp/*._merge_calculations cmp/*.__init__ cmp/*._create_profile utx/__init__ ulb/__init__ upr/__init__ bpr/__init__ gra/__init__ "
  "opt/*.is_prop_enabled opt/*.enabled_profiles opt/*.is_numeric_stats_enabled opt/*.is_numeric_stats_enabled= opt/*.properties prf/__new__",
  notcells=r"^(warn)", observe=["Profiler(data, options=...)"])

P("O02", "Every option value is validated and every error reaches the caller",
  "Validating options checks each option and nested option group against its documented type, range and dependencies and reports every offence with its full option path; an invalid value is never accepted silently and a valid one is never refused. Building a profiler with invalid options fails before profiling.",
  ["configurations", "inputs"],
  "every option tree and every value",
  "tests try a few bad values per option",
  [OPT], [("validation helpers", OPT + ":*._validate_helper")],
  "opt/*._validate_helper opt/*.validate opt/*._set_helper",
  observe=["ProfilerOptions.validate()", "Profiler(options=...)"])

P("O03", "Option defaults, presets and bulk setting assign exactly the named options",
  "Creating options gives the documented defaults, a preset sets exactly the options it documents, and setting by name, path or wildcard assigns the value to every matching option and to nothing else, refusing unknown names. Copies and comparisons of options see every option.",
  ["configurations"],
  "every option path, wildcard and preset",
  "tests set a few paths",
  [OPT], [("bulk setter", OPT + ":BaseOption._set_helper")],
  "opt/*.__init__ opt/*.set opt/*._set_helper opt/*.properties opt/*._complete_presets opt/*._data_types_presets opt/*._numeric_stats_disabled_presets "
  "opt/*._lower_memory_sketching_presets opt/*.__eq__ opt/*.__deepcopy__ opt/*.properties=",
  observe=["ProfilerOptions.set({...})", "ProfilerOptions(presets=...)"])

P("L01", "Labeler components accept only valid parameters and keep the old ones otherwise",
  "Models, pre- and postprocessors check every parameter they are given, by constructor or setter, against its documented type, range and consistency with the others; invalid or unknown parameters raise with all offences listed and leave the component as it was. Components never share or modify the caller's parameter containers.",
  ["configurations", "inputs"],
  "every parameter dictionary",
  "tests try a few bad values per parameter",
  [LAB + "base_model.py", LAB + "data_processing.py", LAB + "*_model.py"],
  [("parameter validation", LAB + "*.py:_validate_parameters")],
  "bmo/*.set_params bmo/*.get_parameters bmo/*.__init__ bmo/*.set_label_mapping bmo/*.add_label bmo/*._convert* bmo/*.labels bmo/*.num_labels bmo/*.label_mapping "
  "bmo/*.reverse_label_mapping bmo/*.__eq__ dpc/*._validate_parameters dpc/*.set_params dpc/*.get_parameters dpc/*.__init__ dpc/*.__eq__ cnn/*._validate_parameters "
  "clt/*._validate_parameters cnm/_validate_parameters rgx/_validate_parameters cnn/*.set_label_mapping clt/*.set_label_mapping cnn/*.__init__ clt/*.__init__ "
  "cnm/__init__ rgx/__init__ cnn/*.__eq__ clt/*.__eq__ bmo/*._need* cnn/*._need* clt/*._need* cnm/_need* rgx/_need*",
  rules=["params_not_shared"], observe=["set_params()", "constructors"])

P("L02", "A saved labeler loads back with the same components and parameters",
  "Saving a data labeler, model or processor to disk and loading it restores the same component classes, parameters, label mapping and format options, from the same files it wrote, and refuses components of the wrong kind. Classes register themselves under the name they are saved by.",
  ["inputs", "configurations"],
  "every labeler configuration",
  "tests round-trip a few mocked components",
  [LAB + "base_data_labeler.py", LAB + "base_model.py", LAB + "data_processing.py", LAB + "*_model.py"],
  [("save and load pairs", LAB + "*.py:save_to_disk/load_from_disk")],
  "bdl/*._load* bdl/*.load* bdl/*._save* bdl/*.save* bmo/*.load* bmo/*.save* bmo/*._register* bmo/*.get_class bmo/*.__init_subclass__ bmo/Auto* dpc/*.load* dpc/*._save* dpc/*.save* "
  "dpc/*._register* dpc/*.get_class dpc/Auto* cnn/*.save* cnn/*.load* clt/*.save* clt/*.load* cnm/save* cnm/load* rgx/save* rgx/load* dls/*.load* dls/DataLabeler.__new__",
  observe=["save_to_disk()", "load_from_disk()"])

P("L03", "Prediction runs preprocessing, model and postprocessing consistently",
  "A labeler's prediction sends the data through its preprocessor, model and postprocessor in that order with their own parameters and the model's label mapping, keeps one result per input item in input order, and never mixes up padding, default and real labels; confidences are returned only on request. Character, regex and column-name components each map model output to labels by the mapping they were given.",
  ["inputs", "configurations"],
  "every input batch, text length, label mapping and option",
  "tests use a few short inputs and mocked models",
  [LAB + "base_data_labeler.py", LAB + "data_processing.py", LAB + "regex_model.py", LAB + "column_name_model.py",
   LAB + "character_level_cnn_model.py"],
  [("prediction pipeline", LAB + "base_data_labeler.py:BaseDataLabeler.predict"), ("processors", LAB + "data_processing.py:*.process")],
  "bdl/*.predict bdl/*.fit bdl/*._check* bdl/*.check_pipeline dpc/*.process dpc/*._process* dpc/*._find* dpc/*._word* dpc/*.convert* dpc/*.match* dpc/*.priority* dpc/*.split* "
  "rgx/predict cnm/predict cnm/_compare* cnm/_make* cnn/*.predict clt/*.predict cnn/*.fit clt/*.fit cnn/*._validate_training clt/*._validate_training rgx/_construct* cnm/_construct* "
  "cnn/*.call cnn/*._argmax* lut/*evaluate* lut/f1* lut/FBeta* crp/*",
  notcells=r"^(warn)", rules=["use_keeps_settings"], observe=["DataLabeler.predict()", "DataLabeler.fit()"])

P("L04", "Labels and components of a labeler stay consistent with each other",
  "Setting labels, adding a label or exchanging the model, preprocessor or postprocessor of a labeler validates the new part, propagates shared parameters and keeps the label mapping a one-to-one numbering that every component agrees on. Equality of labelers compares all of their components.",
  ["inputs", "histories"],
  "every sequence of label and component changes",
  "tests make a few single changes",
  [LAB + "base_data_labeler.py", LAB + "base_model.py"],
  [("component setters", LAB + "base_data_labeler.py:BaseDataLabeler.set_*")],
  "bdl/*.set* bdl/*.add_label bdl/*.__eq__ bdl/*.label_mapping bdl/*.reverse* bdl/*.labels bdl/*.model bdl/*.preprocessor bdl/*.postprocessor bdl/*.check_pipeline bdl/*.__init__ "
  "bmo/*.set_label_mapping bmo/*.add_label bmo/*._convert* bmo/*.label_mapping bmo/*.reverse* bmo/*.labels bmo/*.num_labels cnn/*.set_label_mapping clt/*.set_label_mapping "
  "cnn/*._reconstruct* clt/*._reconstruct* cnn/*.reset* clt/*.reset* bmo/*.__eq__ dpc/*.__eq__ cnn/*.__eq__ clt/*.__eq__ rgx/__eq__ cnm/__eq__",
  notcells=r"^(warn)", observe=["set_labels()", "add_label()", "set_model()"])

P("F01", "Format detection asks each reader in order and leaves the input as found",
  "Opening a source without a stated format picks the first reader, in the documented order, that recognises it, and a stated format is used as stated. Recognising a source reads it without side effects: a buffer given at its start is left open and back at its start, and detection of encoding, delimiter, quote character and header looks at the data given and honours options the caller fixed.",
  ["inputs", "configurations"],
  "every source, stream position and option setting",
  "tests probe a fixed set of files",
  [RDR + "data.py", RDR + "*_data.py", RDR + "data_utils.py", RDR + "filepath_or_buffer.py"],
  [("reader registry", RDR + "data.py:Data"), ("recognisers", RDR + "*_data.py:is_match")],
  "rd/data:* rd/*:*.is_match rd/csv_data:*._guess* rd/csv_data:*._check* rd/base_data:*._check* rd/data_utils:detect* rd/data_utils:is_valid* rd/data_utils:get_delim* rd/data_utils:find_nth* "
  "rd/data_utils:load_as_str* rd/filepath_or_buffer:* rd/graph_data:*._find* rd/graph_data:*.csv_column* rd/graph_data:*.check_int* rd/*:*.file_encoding rd/data_utils:url_to* rd/data_utils:S3*",
  notcells=r"^(warn)", observe=["Data(path_or_buffer)"])

P("F02", "Readers return the whole content under the options given, also after a reload",
  "Loading a source gives every record and selected column under the options in force, in the requested shape (frame, records, JSON, text), sampling only when asked; loading is deferred until first use and then kept. Reloading replaces source, options and data together, so that nothing of the earlier source shows through.",
  ["inputs", "histories", "configurations"],
  "every source, option setting, and sequence of reads and reloads",
  "tests read a fixed set of files and reload a few",
  [RDR + "*_data.py", RDR + "structured_mixins.py", RDR + "data_utils.py"],
  [("load and reload", RDR + "*_data.py:reload"), ("conversion helpers", RDR + "data_utils.py")],
  "rd/*:*._load* rd/*:*.reload rd/*:*._get_data* rd/*:*.get_batch* rd/*:*.__getattribute__ rd/*:*.__len__ rd/*:*.length rd/*:*.data rd/*:*.data= rd/*:*.data_format rd/*:*.data_format= "
  "rd/*:*.__init__ rd/json_data:*._find* rd/json_data:*._coal* rd/json_data:*._convert* rd/json_data:*.data_and* rd/json_data:*.metadata rd/json_data:*.selected* rd/avro_data:*._get* rd/*:*.is_structured "
  "rd/csv_data:*.selected* rd/csv_data:*.delimiter rd/csv_data:*.quotechar rd/csv_data:*.header rd/csv_data:*.sample* rd/parquet_data:*.selected* rd/parquet_data:*.sample* rd/text_data:*.samples* rd/text_data:*.tokenize "
  "rd/data_utils:data_gen* rd/data_utils:generator* rd/data_utils:convert* rd/data_utils:unicode* rd/data_utils:json* rd/data_utils:read* rd/data_utils:reservoir rd/data_utils:rsample rd/data_utils:sample*",
  exclude=["data_readers.filepath_or_buffer:*", "data_readers.data:*"],
  notcells=r"^(warn)", observe=["Data(...).data", "reload()"])

P("F03", "Files and buffers opened on the way are released on every path",
  "Every file or stream wrapper the library opens is closed or detached on success and on every failure, while a buffer supplied by the caller stays open. Temporary changes to a profile, such as detached labelers, are undone on every path out.",
  ["inputs", "fault_sequences"],
  "every read or write and every point at which it may fail",
  "tests do not make reads and writes fail",
  [RDR + "data_utils.py", RDR + "filepath_or_buffer.py", BLD, PB + "graph_profiler.py", LAB + "*.py"],
  [("context managers and cleanup blocks", RDR + "filepath_or_buffer.py")],
  "rd/filepath_or_buffer:*.__e* rd/data_utils:read_csv_df bpr/_pkl_save_helper", rules=["handles_released", "restore_on_failure"], observe=["open handles after an exception"])

P("G01", "The graph profile reports the graph's own figures",
  "The profile of a graph reports node and edge counts, degree, largest component, attribute classification and attribute distributions computed from the graph given, keeps them under their own keys in report and difference, and saves and restores all of them.",
  ["inputs", "configurations"],
  "every attributed graph",
  "tests use a few small graphs",
  [PB + "graph_profiler.py", RDR + "graph_data.py"], [("graph profile", PB + "graph_profiler.py:GraphProfiler")],
  "gra/update gra/_update* gra/_get* gra/_find* gra/_attribute* gra/profile gra/report gra/diff gra/save gra/_save_helper gra/load gra/__init__",
  notcells=r"^(warn)", observe=["GraphProfiler"])

P("V01", "The validator reports exactly the offending positions of configured checks",
  "Validation runs each configured check on its column, records the positions of every value outside the stated range or list, refuses malformed configurations and data of unsupported kinds, and gives access to results only after a run.",
  ["inputs", "configurations", "histories"],
  "every configuration, frame and call order",
  "tests use a few configurations",
  ["dataprofiler/validators/base_validators.py"], [("validator", "dataprofiler/validators/base_validators.py:Validator.validate")],
  "val/*", rules=["done_flag_last"], observe=["Validator.validate()", "Validator.get()"])

P("X01", "With a fixed seed every random choice is reproducible",
  "Once a seed is set, sampling, shuffling and any other random choice made by readers and profilers while reading, profiling or merging data depends only on the seed and the inputs, so repeating a run gives the same samples and statistics. Chunked shuffling visits every index exactly once.",
  ["inputs", "configurations", "histories"],
  "every input and seed, in any process state",
  "tests fix global random state around single calls",
  ["dataprofiler/rng_utils.py", "dataprofiler/__init__.py", UTL, RDR + "data_utils.py", BLD],
  [("seeded generator", "dataprofiler/rng_utils.py")],
  "utl/shuffle_in_chunks rd/data_utils:reservoir rd/data_utils:rsample rd/data_utils:sample_parquet rd/base_data:*.get_batch*",
  notcells=r"^(warn)", rules=["rng_discipline"], observe=["dp.set_seed(n)"])
M["rng"] = "rng_utils:"
M["top"] = "dataprofiler:"
PROPS[-1].entries += ["rng/*", "top/set_seed"]

BY_ID = {p.id: p for p in PROPS}

# stated, but outside what this family of technique can decide here
NOT_CLAIMED = [
    ("N01", "Reported quantiles and histogram-based estimates are close to the exact values",
     "Quantiles, medians, modes and other estimates derived from histograms differ from the exact value of the data by no more than the width of the bin they fall in.",
     ["inputs", "histories"], "every column of numbers and every batch split",
     "error depends on the numeric content of the data",
     [NUM], "bounds on floating point error over arbitrary data and repeated re-binning are runtime quantities; no static argument in reach bounds them"),
    ("N02", "Column types, delimiters and headers are guessed correctly",
     "The type selected for a column, and the delimiter, quote character and header row guessed for a file, are those a human would assign.",
     ["inputs"], "every file", "the oracle is a human judgement of content", [PB, RDR + "csv_data.py"],
     "correctness is a heuristic judgement about data content, not a fact about the program text"),
    ("N03", "Predicted labels are accurate",
     "The entity labels predicted for data are right at the advertised precision and recall.",
     ["inputs"], "every data set", "depends on trained weights", [LAB],
     "accuracy of a trained model is an empirical quantity outside the source"),
    ("N04", "Sketches stay within their advertised error",
     "Approximate unique-row and category counts stay within the error implied by their configured size.",
     ["inputs"], "every data set and sketch size", "error bounds are probabilistic", [BLD, PB + "categorical_column_profile.py"],
     "the bound is a probabilistic property of third-party sketch code on runtime data"),
    ("N05", "Profiling time and memory stay proportional to the sample",
     "Profiling cost grows with the number of sampled rows, not with the size of the whole data set.",
     ["inputs"], "every data set", "performance is not observed by tests", [BLD],
     "running time and memory are runtime quantities; no cost model of pandas and numpy is available to a static argument here"),
]
