O = "profilers/order_column_profile.py"
D = "profilers/datetime_column_profile.py"
sorted_bounds = [(O, '''        low_value1 = min(first_value1, last_value1)
        high_value1 = max(first_value1, last_value1)
        low_value2 = min(first_value2, last_value2)
        high_value2 = max(first_value2, last_value2)
        is_enveloping = False
        if low_value1 < low_value2 and high_value1 > high_value2:
            is_enveloping = True
        return is_enveloping
''', '''        low_value1, high_value1 = (
            min(first_value1, last_value1),
            max(first_value1, last_value1),
        )
        low_value2, high_value2 = (
            min(first_value2, last_value2),
            max(first_value2, last_value2),
        )
        return low_value1 < low_value2 and high_value2 < high_value1
''')]
bounds_helper = [(O, '''        low_value1 = min(first_value1, last_value1)
        high_value1 = max(first_value1, last_value1)
        low_value2 = min(first_value2, last_value2)
        high_value2 = max(first_value2, last_value2)
        is_intersecting = False

        if (
            (low_value2 < low_value1 < high_value2)
            or (low_value2 < high_value1 < high_value2)
            or (low_value1 < low_value2 < high_value1)
            or (low_value1 < high_value2 < high_value1)
            or (low_value1 == low_value2 and high_value1 == high_value2)
        ):
            is_intersecting = True
        return is_intersecting
''', '''        low_value1, high_value1 = OrderColumn._bounds(first_value1, last_value1)
        low_value2, high_value2 = OrderColumn._bounds(first_value2, last_value2)

        return (
            (low_value2 < low_value1 < high_value2)
            or (low_value2 < high_value1 < high_value2)
            or (low_value1 < low_value2 < high_value1)
            or (low_value1 < high_value2 < high_value1)
            or (low_value1 == low_value2 and high_value1 == high_value2)
        )

    @staticmethod
    def _bounds(first_value, last_value):
        return min(first_value, last_value), max(first_value, last_value)
''')]
merge_same_order = [(O, '''            if not is_intersecting or (piecewise1 and piecewise2):
                order = order1
            elif (
                piecewise1 and self_envelopes_other
            ):  # Intersect and not both piecewise
                order = order1
            elif piecewise2 and other_envelopes_self:
                order = order1
            elif order1 == "constant value":  # Constants that intersect
                order = order1
            else:  # Ascending/Descending that intersect but not both piecewise
                # and dont envelope one or the other
                order = "random"
''', '''            if (
                not is_intersecting
                or (piecewise1 and piecewise2)
                or (piecewise1 and self_envelopes_other)
                or (piecewise2 and other_envelopes_self)
                or order1 == "constant value"
            ):
                order = order1
''')]
merge_default_random = [(O, '''        if order1 == "random" or order2 == "random":
            order = "random"

        # Neither Random
        elif order1 == order2:''', '''        if "random" in (order1, order2):
            pass

        # Neither Random
        elif order1 == order2:'''), (O, '''        elif (order1 == "ascending" and order2 == "descending") or (
            order1 == "descending" and order2 == "ascending"
        ):
            order = "random"
''', '''        elif {order1, order2} == {"ascending", "descending"}:
            order = "random"
''')]
piecewise_expr = [(O, '''        piecewise = True
        if (
            order == "constant value" and first_value == last_value
        ) or order == "random":
            piecewise = False
''', '''        piecewise = order != "random" and not (
            order == "constant value" and first_value == last_value
        )
''')]
add_tuple = [(O, '''        order, first_value, last_value, piecewise, data_store_type = self._merge_order(''', '''        (
            merged_profile.order,
            merged_profile._first_value,
            merged_profile._last_value,
            merged_profile._piecewise,
            merged_profile._data_store_type,
        ) = self._merge_order('''), (O, '''        merged_profile.order = order
        merged_profile._first_value = first_value
        merged_profile._last_value = last_value
        merged_profile._piecewise = piecewise
        merged_profile._data_store_type = data_store_type

''', '')]
dt_merge_source = [(D, '''        if self._dt_obj_min is None:
            merged_profile.min = other.min
            merged_profile._dt_obj_min = other._dt_obj_min
        elif other._dt_obj_min is None or self._dt_obj_min < other._dt_obj_min:
            merged_profile.min = self.min
            merged_profile._dt_obj_min = self._dt_obj_min
        else:
            merged_profile.min = other.min
            merged_profile._dt_obj_min = other._dt_obj_min
''', '''        earliest = other
        if self._dt_obj_min is not None and (
            other._dt_obj_min is None or self._dt_obj_min < other._dt_obj_min
        ):
            earliest = self
        merged_profile.min = earliest.min
        merged_profile._dt_obj_min = earliest._dt_obj_min
''')]
dt_merge_combined = [(D, '''        if self._dt_obj_max is None:
            merged_profile.max = other.max
            merged_profile._dt_obj_max = other._dt_obj_max
        elif other._dt_obj_max is None or self._dt_obj_max > other._dt_obj_max:
            merged_profile.max = self.max
            merged_profile._dt_obj_max = self._dt_obj_max
        else:
            merged_profile.max = other.max
            merged_profile._dt_obj_max = other._dt_obj_max
''', '''        if self._dt_obj_max is None or (
            other._dt_obj_max is not None and self._dt_obj_max <= other._dt_obj_max
        ):
            merged_profile.max = other.max
            merged_profile._dt_obj_max = other._dt_obj_max
        else:
            merged_profile.max = self.max
            merged_profile._dt_obj_max = self._dt_obj_max
''')]
dt_load_loop = [(D, '''        if profile._dt_obj_min is not None:
            profile._dt_obj_min = pd.Timestamp(profile._dt_obj_min)

        if profile._dt_obj_max is not None:
            profile._dt_obj_max = pd.Timestamp(profile._dt_obj_max)
''', '''        for attr in ("_dt_obj_min", "_dt_obj_max"):
            value = getattr(profile, attr)
            if value is not None:
                setattr(profile, attr, pd.Timestamp(value))
''')]
dt_validate_return = [(D, '''        try:
            converted_date: (datetime.datetime | float) = datetime.datetime.strptime(
                date, date_format
            )
        except (ValueError, TypeError):
            converted_date = np.nan

        return converted_date
''', '''        try:
            return datetime.datetime.strptime(date, date_format)
        except (ValueError, TypeError):
            return np.nan
''')]
