"""hand-written behaviour-preserving rewrites (dev/refs/*.py: NAME = [(file, old, new), ...]);
reports what the checks say about each: anything but silence is a false alarm"""
import importlib.util, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
def load():
    out = {}
    for p in sorted(glob.glob(H + "/refs/*.py")):
        ns = {}
        exec(compile(open(p).read(), p, "exec"), ns)
        for k, v in ns.items():
            if isinstance(v, list) and not k.startswith("_"):
                out[os.path.basename(p)[:-3] + "." + k] = v
    return out
def one(name, edits):
    d = tempfile.mkdtemp(prefix="ref")
    try:
        shutil.copytree("/repo/dataprofiler", d + "/dataprofiler", ignore=shutil.ignore_patterns("tests", "*.pyc", "__pycache__"))
        for f, old, new in edits:
            p = d + "/dataprofiler/" + f
            s = open(p).read()
            if s.count(old) < 1:
                return name + " EDIT DOES NOT APPLY: " + repr(old[:80])
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        for f in {f for f, o, n in edits}:
            try:
                compile(open(d + "/dataprofiler/" + f).read(), f, "exec")
            except SyntaxError as e:
                return name + " SYNTAX " + str(e)
        r = subprocess.run([sys.executable, H + "/alldiff.py", name, "", "-v"], env=dict(os.environ, VERIF_REPO=d, FAST="1"), capture_output=True, text=True)
        o = r.stdout + (r.stderr[-800:] if r.returncode else "")
        first = o.split("\n")[0]
        if first.endswith("[]"):
            return "quiet " + name
        return "ALARM " + name + "\n" + "\n".join(x[:int(os.environ.get("W", "220"))] for x in o.split("\n")[: int(os.environ.get("L", "14"))])
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    want = sys.argv[1:]
    refs = load()
    items = [(k, v) for k, v in refs.items() if not want or any(w in k for w in want)]
    q = a = 0
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda kv: one(*kv), items):
            if r.startswith("quiet"): q += 1
            else: a += 1
            print(r, flush=True)
    print("quiet", q, "alarm", a)
