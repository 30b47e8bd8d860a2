PROPERTY = "M01"
NEEDS = "two profiles with different numbers of top modes configured, the smaller first"
BREAKS = "the merged profile keeps the first operand's mode limit instead of the larger one"
EDITS = [("dataprofiler/profilers/numerical_column_stats.py",
          "self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)",
          "self._top_k_modes = other1._top_k_modes or other2._top_k_modes")]
DEMO = '''
import pandas as pd
from dataprofiler.profilers.int_column_profile import IntColumn
from dataprofiler.profilers.profiler_options import IntOptions
def col(k, vals):
    o = IntOptions(); o.mode.top_k_modes = k
    p = IntColumn("a", options=o); p.update(pd.Series(vals).astype(str)); return p
a = col(1, [1, 1, 2]); b = col(4, [3, 3, 4])
assert (a + b)._top_k_modes == 4
assert (b + a)._top_k_modes == 4
'''
