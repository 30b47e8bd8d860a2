"""dev/bugs.py [substr]: applies each breakage of dev/bugs*.py in a scratch copy and reports caught/missed + edit size"""
import difflib, glob, io, os, shutil, subprocess, sys, tempfile, tokenize
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
def load():
    out = {}
    for p in sorted(glob.glob(H + "/bugs[0-9]*.py")):
        ns = {}
        exec(compile(open(p).read(), p, "exec"), ns)
        out.update({k: v for k, v in ns.items() if isinstance(v, tuple)})
    return out
def toks(s):
    try:
        return [t.string for t in tokenize.generate_tokens(io.StringIO(s).readline) if t.string.strip() and t.type != tokenize.COMMENT]
    except (tokenize.TokenError, IndentationError):
        return s.split()
def size(edits):
    D = I = 0
    for f, o, n in edits:
        a, b = toks(o), toks(n)
        for tag, i, j, k, l in difflib.SequenceMatcher(None, a, b, False).get_opcodes():
            if tag != "equal":
                D += j - i; I += l - k
    return D, I
def one(name, prop, edits):
    d = tempfile.mkdtemp(prefix="bug")
    try:
        shutil.copytree("/repo/dataprofiler", d + "/dataprofiler", ignore=shutil.ignore_patterns("tests", "*.pyc", "__pycache__"))
        for f, old, new in edits:
            p = d + "/dataprofiler/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return name + " EDIT DOES NOT APPLY: %d %r" % (s.count(old), old[:80])
            open(p, "w").write(s.replace(old, new, 1))
            compile(s.replace(old, new, 1), f, "exec")
        r = subprocess.run([sys.executable, H + "/alldiff.py", name, prop, "-v"], env=dict(os.environ, VERIF_REPO=d, FAST="1"), capture_output=True, text=True)
        o = r.stdout + (r.stderr[-800:] if r.returncode else "")
        first = o.split("\n")[0]
        return first + " size %s/%s" % size(edits) + ("\n" + "\n".join(x[:200] for x in o.split("\n")[1:int(os.environ["L"])]) if os.environ.get("L") else "")
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    want = sys.argv[1:]
    items = [(k,) + v for k, v in load().items() if not want or any(w in k for w in want)]
    c = m = 0
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda x: one(*x), items):
            c += " CAUGHT" in r; m += " CAUGHT" not in r
            print(r, flush=True)
    print("caught", c, "not", m)
