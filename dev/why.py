"""dev/why.py REF: evidence behind each alarm of one hand rewrite (changed functions' own entries first)"""
import os, sys, tempfile, shutil
sys.path.insert(0, "/verif"); sys.setrecursionlimit(30000)
from dev.refs import load
from sa.engine import Run
from sa import contract
from sa.evidence import evidence
name = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 4
d = tempfile.mkdtemp(prefix="ref")
try:
    shutil.copytree("/repo/dataprofiler", d + "/dataprofiler", ignore=shutil.ignore_patterns("tests", "*.pyc", "__pycache__"))
    for f, old, new in load()[name]:
        p = d + "/dataprofiler/" + f
        s = open(p).read(); assert old in s
        open(p, "w").write(s.replace(old, new, 1))
    run = Run(root=d)
    ch = sorted(run.old_changed)
    print("changed", ch)
    done = 0
    for q in ch + sorted(set().union(*[run.store.callers.get(x, set()) for x in ch]) - set(ch)):
        if done >= n: break
        st, diffs, _ = run.compare(q)
        if st != "ok": print(q, st)
        if diffs and run.artifact(q): continue
        for df in diffs[:3]:
            a, b = run.store.cells(q).get(df.cell, set()), None
            from sa.summary import summarise
            cur = contract.cells_of(summarise(run.ix, q)).get(df.cell, set())
            print("==", q, "|", df.cell, df.mode)
            for r in evidence(a, cur)[:5]:
                print("    ", *[str(x)[:int(os.environ.get("W", "200"))] for x in r])
        done += bool(diffs)
finally:
    shutil.rmtree(d)
