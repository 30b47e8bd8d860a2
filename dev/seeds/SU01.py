PROPERTY = "U01"
NEEDS = "two batches of floats of different sizes"
BREAKS = "the precision variance of a batch is merged with the sample size that already includes the batch"
EDITS = [("dataprofiler/profilers/float_column_profile.py",
"""            self._precision["sum"] += subset_precision["sum"]

            self._precision["biased_var"]""",
"""            self._precision["sum"] += subset_precision["sum"]
            self._precision["sample_size"] += subset_precision["sample_size"]

            self._precision["biased_var"]"""),
("dataprofiler/profilers/float_column_profile.py",
"""            self._precision["sample_size"] += subset_precision["sample_size"]

            self._precision["mean"]""",
"""
            self._precision["mean"]""")]
DEMO = '''
import numpy as np, pandas as pd
from dataprofiler.profilers.float_column_profile import FloatColumn
a, b = ["1.1", "1.22", "1.333"], ["2.1", "3.12345", "4.2", "5.25"]
p = FloatColumn("a"); p.update(pd.Series(a)); p.update(pd.Series(b))
q = FloatColumn("a"); q.update(pd.Series(a + b))
x, y = p._precision["biased_var"], q._precision["biased_var"]
assert abs(x - y) < 1e-9, (x, y)
'''
