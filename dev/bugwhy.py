"""dev/bugwhy.py BUG: raw cell differences (before grading) of the changed functions' own entries"""
import os, sys, tempfile, shutil
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H + "/..", H]; sys.setrecursionlimit(30000)
import threading
def main():
    import bugs
    from sa.engine import Run
    from sa import contract
    from sa.evidence import evidence
    from sa.summary import summarise
    d = tempfile.mkdtemp(prefix="bug")
    try:
        shutil.copytree("/repo/dataprofiler", d + "/dataprofiler", ignore=shutil.ignore_patterns("tests", "*.pyc", "__pycache__"))
        for f, old, new in bugs.load()[sys.argv[1]][1]:
            p = d + "/dataprofiler/" + f
            s = open(p).read(); assert old in s
            open(p, "w").write(s.replace(old, new, 1))
        run = Run(root=d)
        print("changed", run.changed, "rewritten", run.rewritten)
        W = int(os.environ.get("W", "200"))
        for q in sorted(run.changed):
            if q not in run.store.entries: continue
            print("==", q, run.store.entries[q]["status"])
            if run.store.entries[q]["status"] != "ok": continue
            a, s = run.store.cells(q), summarise(run.ix, q)
            b = contract.cells_of(s)
            for c in sorted(set(a) | set(b)):
                x, y = a.get(c, set()), b.get(c, set())
                if x != y:
                    print("  CELL", c, [e[0] for e in evidence(x, y)] if x and y else "")
                    for t in sorted(x - y)[:5]: print("    -", t[:W])
                    for t in sorted(y - x)[:5]: print("    +", t[:W])
                elif "-a" in sys.argv:
                    print("  same", c)
                    for t in sorted(x)[:40]: print("      ", t[:W])
    finally:
        shutil.rmtree(d)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main); t.start(); t.join()
