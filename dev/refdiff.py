"""refdiff.py REF QUAL: full differences of one entry under one rewrite"""
import os, sys, shutil, tempfile, threading
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
from dev import refs
def main():
    from sa import contract
    from sa.index import Index
    d = tempfile.mkdtemp(prefix="ref")
    shutil.copytree("/repo/dataprofiler", d + "/dataprofiler", ignore=shutil.ignore_patterns("tests", "*.pyc", "__pycache__"))
    for f, o, n in refs.load()[sys.argv[1]]:
        p = d + "/dataprofiler/" + f; s = open(p).read(); assert o in s; open(p, "w").write(s.replace(o, n, 1))
    ix = Index(d); store = contract.Store()
    st, diffs, _ = contract.compare_entry(store, ix, sys.argv[2])
    W = int(os.environ.get("W", "400"))
    print(st)
    for x in diffs:
        print(x.cell, x.mode)
        for t in sorted(x.missing): print("   -", t[:W])
        for t in sorted(x.extra): print("   +", t[:W])
    shutil.rmtree(d)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main); t.start(); t.join()
