#!/usr/bin/env python3
"""(Re)writes contracts/summaries.json from the source under $VERIF_REPO (default /repo).

Run by hand after a reviewed change of the code or of the analysis; never by a check."""
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(30000)
from sa import contract

d = contract.build()
st = {}
for e in d["entries"].values():
    st[e["status"]] = st.get(e["status"], 0) + 1
with open(contract.STORE, "w") as f:
    json.dump(d, f, separators=(",", ":"), indent=None)
print(st, len(d["tokens"]), "tokens", os.path.getsize(contract.STORE), "bytes")
