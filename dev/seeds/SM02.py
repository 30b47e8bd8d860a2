PROPERTY = "M02"
NEEDS = "a chain of merges that starts from a profile which has seen no dates"
BREAKS = "the first merge reports the right maximum but forgets its date object, so the second merge replaces the maximum by an earlier one"
EDITS = [("dataprofiler/profilers/datetime_column_profile.py",
"""        if self._dt_obj_max is None:
            merged_profile.max = other.max
            merged_profile._dt_obj_max = other._dt_obj_max
""",
"""        if self._dt_obj_max is None:
            merged_profile.max = other.max
            merged_profile._dt_obj_max = self._dt_obj_max
""")]
DEMO = '''
import pandas as pd
from dataprofiler.profilers.datetime_column_profile import DateTimeColumn
def col(v):
    p = DateTimeColumn("d"); p.update(pd.Series(v)); return p
a, b, c = DateTimeColumn("d"), col(["2010-01-01"]), col(["2005-01-01"])
m = (a + b) + c
assert m.max == "2010-01-01", m.max
'''
