C = "data_readers/csv_data.py"
J = "data_readers/json_data.py"
B = "data_readers/base_data.py"
U = "data_readers/data_utils.py"
F = "data_readers/filepath_or_buffer.py"
opt_helper = [(C, '''        if "record_samples_per_line" in options:
            value = options["record_samples_per_line"]
            if not isinstance(value, int) or value < 0:
                raise ValueError(
                    "'record_samples_per_line' must be an int " "more than 0"
                )
        if "sample_nrows" in options:
            value = options["sample_nrows"]
            if not isinstance(value, int) or value < 0:
                raise ValueError("'sample_nrows' must be an int more than 0")
        return options
''', '''        for name in ("record_samples_per_line", "sample_nrows"):
            if name in options:
                value = options[name]
                if not isinstance(value, int) or value < 0:
                    raise ValueError(f"'{name}' must be an int more than 0")
        return options
''')]
sel_any = [(C, '''            for sc in value:
                if not isinstance(sc, str):
                    raise ValueError("'selected_columns' must be a list of " "strings")
''', '''            if not all(isinstance(sc, str) for sc in value):
                raise ValueError("'selected_columns' must be a list of strings")
''')]
vocab_pop = [(C, '''        if "\\n" in vocab:
            vocab.pop("\\n")
        omitted_list: List[str] = omitted
        if quotechar is not None:
            omitted_list = omitted + [quotechar]
        for char in omitted_list:
            if char in vocab:
                vocab.pop(char)
''', '''        vocab.pop("\\n", None)
        omitted_list: List[str] = (
            omitted if quotechar is None else omitted + [quotechar]
        )
        for char in omitted_list:
            vocab.pop(char, None)
''')]
ordered_comp = [(C, '''        ordered_vocab = []
        sorted_keys = sorted(vocab, key=vocab.__getitem__, reverse=True)
        for c in sorted_keys:
            if c not in preferred:
                ordered_vocab.append(c)
''', '''        sorted_keys = sorted(vocab, key=vocab.__getitem__, reverse=True)
        ordered_vocab = [c for c in sorted_keys if c not in preferred]
''')]
quote_helper = [(C, '''        if not quotechar:
            sniffer = csv.Sniffer()
            sniffer.preferred = preferred
            try:
                # NOTE: Pull the first element, the quote character
                # ignoring type b/c error in getting this class's func
                quotechar = sniffer._guess_quote_and_delimiter(  # type: ignore
                    data_as_str, ordered_vocab[:20]
                )[0]
            except csv.Error:
                quotechar = None
            if not quotechar or len(quotechar) == 0:
                quotechar = '"'
''', '''        if not quotechar:
            quotechar = CSVData._sniff_quotechar(
                data_as_str, preferred, ordered_vocab[:20]
            )
'''), (C, '''    @staticmethod
    def _guess_delimiter_and_quotechar(
''', '''    @staticmethod
    def _sniff_quotechar(data_as_str, preferred, candidates):
        sniffer = csv.Sniffer()
        sniffer.preferred = preferred
        try:
            found = sniffer._guess_quote_and_delimiter(data_as_str, candidates)[0]
        except csv.Error:
            found = None
        return found or '"'

    @staticmethod
    def _guess_delimiter_and_quotechar(
''')]
weighted = [(C, '''        for proposed_delim in validated_proposed_delimiters.keys():
            weighted_delim_count = validated_proposed_delimiters[proposed_delim]
            if proposed_delim in preferred:
                weighted_delim_count = 5 * validated_proposed_delimiters[proposed_delim]
''', '''        for proposed_delim, delim_count in validated_proposed_delimiters.items():
            weight = 5 if proposed_delim in preferred else 1
            weighted_delim_count = weight * delim_count
''')]
row_cells = [(C, '''            for i in range(len(row_list)):
                cell = row_list[i].strip()
                cell_type = data_utils.detect_cell_type(cell)
''', '''            for raw_cell in row_list:
                cell_type = data_utils.detect_cell_type(raw_cell.strip())
''')]
hoist_regex = [(C, '''        for row in data_as_str.split("\\n"):

            delimiter_regex = data_utils.get_delimiter_regex(delimiter, quotechar)
            row_list = re.split(delimiter_regex, row)
''', '''        delimiter_regex = data_utils.get_delimiter_regex(delimiter, quotechar)
        for row in data_as_str.split("\\n"):

            row_list = re.split(delimiter_regex, row)
''')]
load_str_or = [(C, '''        delimiter, quotechar = None, None
        if not self._delimiter or not self._quotechar:
            delimiter, quotechar = self._guess_delimiter_and_quotechar(data_as_str)
        if not self._delimiter:
            self._delimiter = delimiter
        if not self._quotechar:
            self._quotechar = quotechar

        data_buffered''', '''        if not self._delimiter or not self._quotechar:
            delimiter, quotechar = self._guess_delimiter_and_quotechar(data_as_str)
            self._delimiter = self._delimiter or delimiter
            self._quotechar = self._quotechar or quotechar

        data_buffered''')]
load_shared = [(C, '''        delimiter, quotechar = None, None
        if not self._delimiter or not self._quotechar:
            delimiter, quotechar = self._guess_delimiter_and_quotechar(data_as_str)
        if not self._delimiter:
            self._delimiter = delimiter
        if not self._quotechar:
            self._quotechar = quotechar

        data_buffered''', '''        self._fill_dialect(data_as_str)

        data_buffered'''), (C, '''            delimiter, quotechar = None, None
            if not self._delimiter or not self._quotechar:
                delimiter, quotechar = self._guess_delimiter_and_quotechar(data_as_str)
            if not self._delimiter:
                self._delimiter = delimiter
            if not self._quotechar:
                self._quotechar = quotechar
''', '''            self._fill_dialect(data_as_str)
'''), (C, '''    def _load_data_from_str(self, data''', '''    def _fill_dialect(self, data_as_str):
        delimiter, quotechar = None, None
        if not self._delimiter or not self._quotechar:
            delimiter, quotechar = self._guess_delimiter_and_quotechar(data_as_str)
        if not self._delimiter:
            self._delimiter = delimiter
        if not self._quotechar:
            self._quotechar = quotechar

    def _load_data_from_str(self, data''')]
find_data = [(J, '''            for key in json_data:
                if isinstance(json_data[key], dict) or isinstance(json_data[key], list):
                    list_of_dict = list_of_dict + self._find_data(
                        json_data[key], path + key
                    )
                else:
                    list_of_dict = list_of_dict + [{path + key: json_data[key]}]
''', '''            for key, value in json_data.items():
                if isinstance(value, (dict, list)):
                    list_of_dict += self._find_data(value, path + key)
                else:
                    list_of_dict.append({path + key: value})
''')]
coalesce_else = [(J, '''            found = False
            for dict_items in coalesced_list_of_dicts:
                if list(item.keys())[0] not in dict_items:
                    dict_items.update(item)
                    found = True
                    break
            if not found:
                coalesced_list_of_dicts.append(item)
''', '''            for dict_items in coalesced_list_of_dicts:
                if list(item.keys())[0] not in dict_items:
                    dict_items.update(item)
                    break
            else:
                coalesced_list_of_dicts.append(item)
''')]
payload_max = [(J, '''            for payload in payloads:
                if len(payloads[payload]) > max_payload_length:
                    payload_data = payloads[payload]
                    max_payload_length = len(payloads[payload])
                    found_payload_key = payload
''', '''            for payload, frame in payloads.items():
                n_rows = len(frame)
                if n_rows > max_payload_length:
                    max_payload_length = n_rows
                    found_payload_key = payload
                    payload_data = frame
''')]
flat_early = [(J, '''        data = self.data
        if self._metadata is not None and not self._metadata.empty:
            data = [self._metadata, data]
            data = pd.concat(data, axis=1)
        return data
''', '''        data = self.data
        if self._metadata is None or self._metadata.empty:
            return data
        return pd.concat([self._metadata, data], axis=1)
''')]
is_match_ratio = [(J, '''        if ratio_of_valid_json_line >= 0.5:
            return True
        else:
            return False
''', '''        return ratio_of_valid_json_line >= 0.5
''')]
data_prop = [(B, '''        allowed_data_formats = list(self._data_formats.keys())
        if not self._selected_data_format:
            return self._data
        elif self._selected_data_format in allowed_data_formats:
            return self._data_formats[self._selected_data_format](self._data)
        else:
            raise ValueError(
                "The data format must be one of the following: {}".format(
                    str(allowed_data_formats)
                )
            )
''', '''        if not self._selected_data_format:
            return self._data
        if self._selected_data_format not in self._data_formats:
            raise ValueError(
                f"The data format must be one of the following: {list(self._data_formats)}"
            )
        converter = self._data_formats[self._selected_data_format]
        return converter(self._data)
''')]
setter_lower = [(B, '''        allowed_data_formats = list(self._data_formats.keys())
        if value.lower() not in allowed_data_formats:
            raise ValueError(
                "The data format must be one of the following: {}".format(
                    str(allowed_data_formats)
                )
            )
        self._selected_data_format = value.lower()
''', '''        value = value.lower()
        allowed_data_formats = list(self._data_formats.keys())
        if value not in allowed_data_formats:
            raise ValueError(
                "The data format must be one of the following: {}".format(
                    str(allowed_data_formats)
                )
            )
        self._selected_data_format = value
''')]
batch_local = [(B, '''        data_length = len(self.data)
        indices = rng_utils.get_random_number_generator().permutation(data_length)
        for i in range(0, data_length, batch_size):
            if isinstance(self.data, pd.DataFrame):
                yield self.data.iloc[indices[i : i + batch_size], :]
            else:
                yield list(self.data[k] for k in indices[i : i + batch_size])
''', '''        data_length = len(self.data)
        rng = rng_utils.get_random_number_generator()
        indices = rng.permutation(data_length)
        for start in range(0, data_length, batch_size):
            chosen = indices[start : start + batch_size]
            if isinstance(self.data, pd.DataFrame):
                yield self.data.iloc[chosen, :]
            else:
                yield [self.data[k] for k in chosen]
''')]
handler_exit = [(F, '''        if self._is_wrapped:
            self._filepath_or_buffer = cast(
                TextIOWrapper, self._filepath_or_buffer
            )  # guaranteed by self._is_wrapped
            wrapper = self._filepath_or_buffer
            self._filepath_or_buffer = wrapper.buffer
            wrapper.detach()
''', '''        if self._is_wrapped:
            wrapper = cast(TextIOWrapper, self._filepath_or_buffer)
            self._filepath_or_buffer = wrapper.buffer
            wrapper.detach()
''')]
csv_df_finally = [(U, '''        if is_buf_wrapped:
            file_path = cast(TextIOWrapper, file_path)
            file_path.detach()
        elif is_file_open:
            file_path.close()
''', '''        _release(file_path, is_buf_wrapped, is_file_open)
'''), (U, '''def read_csv_df(
''', '''def _release(handle, is_buf_wrapped, is_file_open):
    if is_buf_wrapped:
        handle.detach()
    elif is_file_open:
        handle.close()


def read_csv_df(
''')]
read_json_for = [(U, '''    while True:
        try:
            raw_line = next(data_generator)
        except StopIteration:
            raw_line = None

        if not raw_line:
            break
        try:''', '''    for raw_line in data_generator:
        if not raw_line:
            break
        try:''')]
