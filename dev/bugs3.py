"""third wave: readers"""
BS = "data_readers/base_data.py"
SM = "data_readers/structured_mixins.py"
DA = "data_readers/data.py"
FB = "data_readers/filepath_or_buffer.py"
TX = "data_readers/text_data.py"
PQ = "data_readers/parquet_data.py"
JS = "data_readers/json_data.py"
GR = "data_readers/graph_data.py"
DU = "data_readers/data_utils.py"
CS = "data_readers/csv_data.py"
AV = "data_readers/avro_data.py"
f02_rec_tail = ("F02", [(SM, "            for i in range((len(data) + records_per_line - 1) // records_per_line)\n", "            for i in range(len(data) // records_per_line)\n")])
f02_df_none = ("F02", [(SM, "        elif self.input_file_path:\n", "        if self.input_file_path:\n")])
f02_batch_tail = ("X01", [(BS, "        for i in range(0, data_length, batch_size):\n", "        for i in range(0, data_length - batch_size + 1, batch_size):\n")])
f02_batch_loc = ("F02", [(BS, "                yield self.data.iloc[indices[i : i + batch_size], :]\n", "                yield self.data.loc[indices[i : i + batch_size], :]\n")])
x01_perm = ("X01", [(BS, "        indices = rng_utils.get_random_number_generator().permutation(data_length)\n", "        indices = np.random.permutation(data_length)\n"), (BS, "import pandas as pd\n", "import numpy as np\nimport pandas as pd\n")])
f01_enc = ("F01", [(BS, '                if file_encoding.lower() in ["ansi_x3.4-1968", "ascii"]:\n', '                if file_encoding in ["ansi_x3.4-1968", "ascii"]:\n')])
f01_order = ("F01", [(DA, """        dict(data_class=GraphData, kwargs=dict()),
        dict(data_class=CSVData, kwargs=dict()),
""", """        dict(data_class=CSVData, kwargs=dict()),
        dict(data_class=GraphData, kwargs=dict()),
""")])
f01_optcopy = ("F01", [(DA, "            options_copy = options.copy()\n", "            options_copy = options\n")])
f01_stated = ("F01", [(DA, "                data is not None or data_class.is_match(input_file_path, options_copy)\n", "                data is not None\n                or data_type\n                or data_class.is_match(input_file_path, options_copy)\n")])
f01_mem = ("F01", [(DA, "        if data is not None and not data_type:\n", "        if data and not data_type:\n")])
f01_pq_seek = ("F01", [(PQ, "            file_path.seek(starting_location, 0)\n", "            file_path.seek(0)\n")])
f01_pq_fail = ("F01", [(PQ, """        # return to original position in stream
        if data_utils.is_stream_buffer(file_path):
""", """        # return to original position in stream
        if is_valid_parquet and data_utils.is_stream_buffer(file_path):
""")])
f01_json_range = ("F01", [(JS, "            for k in range(1000):\n                total_line_count += 1\n", "            for k in range(1000):\n")])
f01_json_ratio = ("F01", [(JS, "        if ratio_of_valid_json_line >= 0.5:\n", "        if ratio_of_valid_json_line > 0.5:\n")])
f01_json_seek = ("F01", [(JS, "                return True\n            except (json.JSONDecodeError, UnicodeDecodeError):\n                data_file.seek(0)\n", "                return True\n            except (json.JSONDecodeError, UnicodeDecodeError):\n                pass\n")])
f01_json_unic = ("F01", [(JS, "                except UnicodeDecodeError:\n                    return False\n                except ValueError:\n                    continue\n", "                except ValueError:\n                    continue\n")])
f02_json_meta = ("F02", [(JS, "        self._metadata: Optional[pd.DataFrame] = None\n", "        self._metadata: Optional[pd.DataFrame] = getattr(self, \"_metadata\", None)\n")])
f02_json_pay = ("F02", [(JS, "                if len(payloads[payload]) > max_payload_length:\n", "                if len(payloads[payload]) >= max_payload_length:\n")])
f02_json_key = ("F02", [(JS, "                if key != found_payload_key:\n", "                if key not in self._payload_keys:\n")])
f02_json_sel = ("F02", [(JS, """                    payload_data, original_df_dtypes = data_utils.json_to_dataframe(
                        json_lines=payload_data,
                        selected_columns=self.selected_keys,
""", """                    payload_data, original_df_dtypes = data_utils.json_to_dataframe(
                        json_lines=payload_data,
                        selected_columns=None,
""")])
f02_json_coal = ("F02", [(JS, "            if not found:\n                coalesced_list_of_dicts.append(item)\n", "            if not found:\n                coalesced_list_of_dicts[-1].update(item)\n")])
f02_json_sep = ("F02", [(JS, "                new_key, nested_key = key.split(separator, 1)\n", "                new_key, nested_key = key.rsplit(separator, 1)\n")])
f02_json_seek = ("F02", [(JS, "                input_file.seek(0)\n                data = data_utils.read_json(", "                data = data_utils.read_json(")])
f02_json_list = ("F02", [(JS, "            if all(isinstance(x, dict) for x in json_data):\n", "            if any(isinstance(x, dict) for x in json_data):\n")])
f02_json_reload = ("F02", [(JS, "        JSONData.__init__(self, self.input_file_path, data, options)\n", "        JSONData.__init__(self, self.input_file_path, data, options or self.options)\n")])
f02_txt_reload = ("F02", [(TX, "        TextData.__init__(self, self.input_file_path, data, options)\n", "        TextData.__init__(self, self.input_file_path or input_file_path, data, options)\n")])
f02_pq_sel = ("F02", [(DU, """            if selected_columns:
                data_row_df = data_row_df[selected_columns]

            data = pd.concat([data, data_row_df])
""", """            data = pd.concat([data, data_row_df])

        if selected_columns and len(data):
            data = data[selected_columns]
""")])
f02_pq_first = ("F02", [(DU, "        for i in range(parquet_file.num_row_groups):\n", "        for i in range(max(1, parquet_file.num_row_groups - 1)):\n")])
f02_pq_dtypes = ("F02", [(DU, "        original_df_dtypes = data.dtypes\n        if read_in_string:\n            data = data.astype(str)\n        return data, original_df_dtypes\n", "        if read_in_string:\n            data = data.astype(str)\n        original_df_dtypes = data.dtypes\n        return data, original_df_dtypes\n")])
f02_pq_sample = ("F02", [(DU, "    if sample_nrows is None:\n        parquet_file", "    if not sample_nrows or not selected_columns:\n        parquet_file")])
f02_pq_choice = ("X01", [(DU, "        sample_index[rng.choice(n_rows, sample_nrows, replace=False)] = True\n", "        sample_index[rng.choice(n_rows, sample_nrows)] = True\n")])
f02_res_idx = ("X01", [(DU, "        remove_index = rng.integers(0, sample_nrows)\n", "        remove_index = rng.integers(0, sample_nrows - 1)\n")])
f02_res_keep = ("F02", [(DU, "    values = [values[indices[i]] for i in irange]\n    return values\n", "    values = values[-sample_nrows:]\n    return values\n")])
f02_rs_header = ("F02", [(DU, "        result = [[next(file_path) for i in range(header + 1)][-1]]\n", "        result = [[next(file_path) for i in range(header + 1)][0]]\n")])
f02_csv_na = ("F02", [(DU, '        "keep_default_na": False,\n', "")])
f02_csv_blank = ("F02", [(DU, '    if header is not None:\n        args.update({"skip_blank_lines": False})\n', '    if header:\n        args.update({"skip_blank_lines": False})\n')])
f02_read_json_blank = ("F02", [(DU, """            lines.append(obj)
        except ValueError:
            pass
            # To ignore malformatted lines.
        k += 1
    if not lines and k:
        raise ValueError("No JSON data could be read from these data.")
    return lines
""", """            lines.append(obj)
        except ValueError:
            break
            # To ignore malformatted lines.
        k += 1
    if not lines and k:
        raise ValueError("No JSON data could be read from these data.")
    return lines
""")])
f02_uni = ("F02", [(DU, "        return [unicode_to_str(item, ignore_dicts=True) for item in data]\n", "        return [unicode_to_str(item) for item in data if item]\n")])
f02_j2df = ("F02", [(DU, "    original_df_dtypes = df.dtypes\n\n    df[df.columns] = df[df.columns].astype(str)\n", "    df[df.columns] = df[df.columns].astype(str)\n    original_df_dtypes = df.dtypes\n")])
f01_enc_lines = ("F01", [(DU, "        while chunk and line_count < max_lines:\n", "        while chunk and line_count <= 1:\n")])
f01_enc_1254 = ("F01", [(DU, '    if not encoding or encoding.lower() in ["ascii", "windows-1254"]:\n', '    if not encoding or encoding in ["ascii", "windows-1254"]:\n')])
f01_nth = ("F01", [(DU, "    if id_count != n:\n        idx = len(string)\n", "    if id_count < n - 1:\n        idx = len(string)\n")])
f01_load_str = ("F01", [(DU, "                total_occurrences += occurrence\n                start_loc = loc\n", "                total_occurrences = occurrence\n                start_loc = loc\n")])
f01_cell = ("F01", [(DU, "            if f_cell.is_integer():\n", "            if f_cell == int(f_cell):\n")])
f01_rx = ("F01", [(DU, '    if quotechar is None:\n        quotechar = \'"\'\n', '    if not quotechar:\n        quotechar = delimiter\n')])
f03_wrap = ("F03", [(FB, """        elif isinstance(self._filepath_or_buffer, BytesIO) and self.open_method == "r":
""", """        elif isinstance(self._filepath_or_buffer, BytesIO):
""")])
f01_url = ("F01", [(DU, "    return all([result.scheme, result.netloc])\n", "    return any([result.scheme, result.netloc])\n")])
f01_url_seek = ("F01", [(DU, "    stream.seek(0)\n    return stream\n", "    return stream\n")])
f01_graph = ("F01", [(GR, "                        target_index = column\n                        has_target = True\n                        break\n            if has_target:\n                break\n", "                        target_index = column\n                        has_target = True\n                        break\n")])
g_graph_node = ("F02", [(GR, "                self.check_integer(csv_as_list[line_index][self._destination_node]),\n                **attributes\n", "                csv_as_list[line_index][self._destination_node],\n                **attributes\n")])
g_graph_quote = ("F02", [(GR, "            if not self._quotechar:\n                self._quotechar = quotechar\n", "            if self._delimiter and not self._quotechar:\n                self._quotechar = delimiter\n")])
g_graph_none = ("F02", [(GR, "                if csv_as_list[line_index][column] is None:\n                    continue\n", "                if not csv_as_list[line_index][column]:\n                    break\n")])
