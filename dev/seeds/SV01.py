PROPERTY = "V01"
NEEDS = "a pandas frame whose index is not 0..n-1"
BREAKS = "offending rows are reported by position instead of by index label"
EDITS = [("dataprofiler/validators/base_validators.py",
          "idx for idx, val in temp_results.items() if val",
          "idx for idx, val in enumerate(temp_results.tolist()) if val")]
DEMO = '''
import pandas as pd
from dataprofiler.validators.base_validators import Validator
df = pd.DataFrame({"a": [1, 50, 2, 60]}, index=[10, 20, 30, 40])
v = Validator()
v.validate(df, {"df_type": "pandas", "known_anomaly_validation": {"a": {"range": {"start": 40, "end": 70}}}})
r = v.get()["a"]["range"]
assert r == [20, 40], r
'''
