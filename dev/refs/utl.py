U = "profilers/profiler_utils.py"
combine_sets = [(U, '''    combined_list: set = set()
    if not a and not b:
        combined_list = set()
    elif not a:
        combined_list = set(b)
    elif not b:
        combined_list = set(a)
    else:
        combined_list = set().union(a, b)
    return list(combined_list)
''', '''    if not a and not b:
        return []
    if not a:
        return list(set(b))
    if not b:
        return list(set(a))
    return list(set().union(a, b))
''')]
shuffle_guard = [(U, '''    if not data_length or data_length == 0 or not chunk_size or chunk_size == 0:
        return []
''', '''    if not data_length or not chunk_size:
        return []
''')]
shuffle_enum = [(U, '''        for count in range(true_chunk_size):
            # get a random index to swap and swap it with j
            k = random_list[count]
            indices''', '''        for count, k in enumerate(random_list):
            # swap the random index with j
            indices''')]
toggle = [(U, '''    if data.shape[0] > num_rows_threshold or data.shape[1] > num_cols_threshold:
        return True
    # Otherwise, we do not turn on multiprocessing
    else:
        return False
''', '''    n_rows, n_cols = data.shape[0], data.shape[1]
    return n_rows > num_rows_threshold or n_cols > num_cols_threshold
''')]
add_nested_items = [(U, '''    for item in first_dict:
        if item in second_dict:
            if isinstance(first_dict[item], dict):
                merged_dict[item] = add_nested_dictionaries(
                    first_dict[item], second_dict[item]
                )
            else:
                merged_dict[item] = first_dict[item] + second_dict[item]
        else:
            merged_dict[item] = copy.deepcopy(first_dict[item])

    for item in second_dict:
        if item not in first_dict:
            merged_dict[item] = copy.deepcopy(second_dict[item])
''', '''    for item, value in first_dict.items():
        if item not in second_dict:
            merged_dict[item] = copy.deepcopy(value)
        elif isinstance(value, dict):
            merged_dict[item] = add_nested_dictionaries(value, second_dict[item])
        else:
            merged_dict[item] = value + second_dict[item]

    for item, value in second_dict.items():
        if item in first_dict:
            continue
        merged_dict[item] = copy.deepcopy(value)
''')]
skew_helper = [(U, '''    M2 = 0 if np.abs(M2) < 1e-14 else M2
    M3 = 0 if np.abs(M3) < 1e-14 else M3

    if M2 == 0:
        return np.float64(0.0)
''', '''    M2, M3 = _zero_if_tiny(M2), _zero_if_tiny(M3)

    if M2 == 0:
        return np.float64(0.0)
'''), (U, '''    M2 = 0 if np.abs(M2) < 1e-14 else M2
    M4 = 0 if np.abs(M4) < 1e-14 else M4
''', '''    M2, M4 = _zero_if_tiny(M2), _zero_if_tiny(M4)
'''), (U, '''def biased_skew(''', '''def _zero_if_tiny(moment):
    """Zero out moments lost to floating point errors."""
    return 0 if np.abs(moment) < 1e-14 else moment


def biased_skew(''')]
diff_numbers = [(U, '''    if stat1 is None and stat2 is None:
        pass
    elif stat1 is None or stat2 is None:
        return [stat1, stat2]
    elif stat1 != stat2:
        return stat1 - stat2
    return "unchanged"
''', '''    if stat1 is None and stat2 is None:
        return "unchanged"
    if stat1 is None or stat2 is None:
        return [stat1, stat2]
    return stat1 - stat2 if stat1 != stat2 else "unchanged"
''')]
diff_lists = [(U, '''        shared = []
        for element in temp_stat1:
            if element in temp_stat2:
                shared.append(element)
                temp_stat2.remove(element)
        for element in shared:
            temp_stat1.remove(element)

        return [temp_stat1, shared, temp_stat2]
''', '''        shared = []
        for element in temp_stat1:
            if element not in temp_stat2:
                continue
            temp_stat2.remove(element)
            shared.append(element)
        for element in shared:
            temp_stat1.remove(element)

        return [temp_stat1, shared, temp_stat2]
''')]
diff_dates = [(U, '''    if diff.days >= 0:
        return "+" + str(diff)
    return "-" + str(abs(diff))
''', '''    sign = "+" if diff.days >= 0 else "-"
    return sign + str(abs(diff))
''')]
diff_dicts_helper = [(U, '''        value2 = dict2.get(key, None)
        if isinstance(value1, list):
            diff[key] = find_diff_of_lists_and_sets(value1, value2)
        elif isinstance(value1, datetime.datetime):
            diff[key] = find_diff_of_dates(value1, value2)
        elif isinstance(value1, str):
            diff[key] = find_diff_of_strings_and_bools(value1, value2)
        elif isinstance(value1, dict) and isinstance(value2, dict):
            diff[key] = find_diff_of_dicts(value1, value2)
        else:
            diff[key] = find_diff_of_numbers(value1, value2)
''', '''        diff[key] = _diff_of_values(value1, dict2.get(key))
'''), (U, '''def find_diff_of_dicts(dict1''', '''def _diff_of_values(value1, value2):
    if isinstance(value1, list):
        return find_diff_of_lists_and_sets(value1, value2)
    if isinstance(value1, datetime.datetime):
        return find_diff_of_dates(value1, value2)
    if isinstance(value1, str):
        return find_diff_of_strings_and_bools(value1, value2)
    if isinstance(value1, dict) and isinstance(value2, dict):
        return find_diff_of_dicts(value1, value2)
    return find_diff_of_numbers(value1, value2)


def find_diff_of_dicts(dict1''')]
diff_matrix_guard = [(U, '''    if matrix1 is not None and matrix2 is not None:
        mat1 = np.array(matrix1, dtype=np.float64)
        mat2 = np.array(matrix2, dtype=np.float64)

        if mat1.shape == mat2.shape:
            diff: np.ndarray = mat1 - mat2
            if ((diff == 0) | np.isnan(diff)).all():
                return "unchanged"
            return diff

    return None
''', '''    if matrix1 is None or matrix2 is None:
        return None

    mat1 = np.array(matrix1, dtype=np.float64)
    mat2 = np.array(matrix2, dtype=np.float64)
    if mat1.shape != mat2.shape:
        return None

    diff: np.ndarray = mat1 - mat2
    is_unchanged = ((diff == 0) | np.isnan(diff)).all()
    return "unchanged" if is_unchanged else diff
''')]
diff_keys_comp = [(U, '''    # Add any keys in dict2 that weren't in dict1
    for key, value in dict2.items():
        if key not in dict1:
            diff_2[key] = value

    diff = [''', '''    # Add any keys in dict2 that weren't in dict1
    diff_2 = {key: value for key, value in dict2.items() if key not in dict1}

    diff = [''')]
memory_sum = [(U, '''    memory_size: float = 0
    for sentence in data:
        memory_size += len(sentence.encode("utf-8"))
    memory_size /= 1024.0 ** unit_map[unit]  # Conversion based on unit_map
    return memory_size
''', '''    num_bytes = sum(len(sentence.encode("utf-8")) for sentence in data)
    return num_bytes / 1024.0 ** unit_map[unit]
''')]
chi2_loop = [(U, '''    for cat, count in cat_counts.items():
        expected1 = sample_size1 * count / total
        expected2 = sample_size2 * count / total
        chi2_statistic += (categories1.get(cat, 0) - expected1) ** 2 / expected1
        chi2_statistic += (categories2.get(cat, 0) - expected2) ** 2 / expected2
''', '''    for cat, count in cat_counts.items():
        for categories, sample_size in (
            (categories1, sample_size1),
            (categories2, sample_size2),
        ):
            expected = sample_size * count / total
            observed = categories.get(cat, 0)
            chi2_statistic += (observed - expected) ** 2 / expected
''')]
chi2_zero = [(U, '''    if 0 in [sample_size1, sample_size2] or 0 in cat_counts.values():
''', '''    has_zero = sample_size1 == 0 or sample_size2 == 0 or 0 in cat_counts.values()
    if has_zero:
'''), (U, '''    if len(cat_counts) <= 1:
        warnings''', '''    if num_cats <= 1:
        warnings''')]
pool = [(U, '''    suggested_pool_size = min(max_pool_mem, max_pool_cpu)
    if cols is not None:
        suggested_pool_size = min(suggested_pool_size, cols)

    return int(suggested_pool_size)
''', '''    limits = [max_pool_mem, max_pool_cpu]
    if cols is not None:
        limits.append(cols)
    return int(min(limits))
''')]
pool_guard = [(U, '''    pool = None
    if max_pool_size is not None and max_pool_size > 2:
        try:
            pool = mp.Pool(max_pool_size)
        except Exception:
            pool = None
            warnings''', '''    if max_pool_size is None or max_pool_size <= 2:
        return None, max_pool_size
    pool = None
    if True:
        try:
            pool = mp.Pool(max_pool_size)
        except Exception:
            warnings''')]
