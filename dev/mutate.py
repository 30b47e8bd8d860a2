"""Detection measurement: dev/mutate.py N [seed] [module-substring]
Applies N random single mutations to functions in the cones and reports which are seen."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, "/verif"); sys.setrecursionlimit(30000)
import ast, collections, copy, random, re
from multiprocessing import Pool
from sa.index import Index
from sa import engine, spec
from sa.contract import Store, compare_entry, is_public, entry_quals

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def muts(fn):
    """list of (kind, mutator(node_in_copy)) sites; addressed by walk index"""
    out = []
    for i, n in enumerate(ast.walk(fn)):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append((i, "cmp"))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
            out.append((i, "arith"))
        if isinstance(n, ast.BoolOp):
            out.append((i, "boolop")); out.append((i, "dropconj"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((i, "dropnot"))
        if isinstance(n, ast.If):
            out.append((i, "noguard"))
            if n.orelse: out.append((i, "dropelse"))
        if isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)) and not isinstance(n.value, str):
            out.append((i, "const"))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append((i, "swapargs"))
        if isinstance(n, ast.Call) and n.keywords:
            out.append((i, "dropkw"))
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("self", "other", "other1", "other2", "other_profile"):
            out.append((i, "swapobj"))
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, ast.AugAssign): out.append((i, "aug:%s:%d" % (f, j)))
                    if isinstance(s, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in s.targets): out.append((i, "delstmt:%s:%d" % (f, j)))
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call): out.append((i, "delstmt:%s:%d" % (f, j)))
                    if isinstance(s, (ast.Continue, ast.Break)): out.append((i, "delstmt:%s:%d" % (f, j)))
                    if isinstance(s, ast.Raise): out.append((i, "delraise:%s:%d" % (f, j)))
    return out


def apply(fn, i, kind, rnd):
    n = list(ast.walk(fn))[i]
    k = kind.split(":")[0]
    if k == "cmp": n.ops = [CMP[type(n.ops[0])]()]
    elif k == "arith": n.op = BIN[type(n.op)]()
    elif k == "boolop": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "dropconj": n.values.pop(rnd.randrange(len(n.values)));  n.values.append(copy.deepcopy(n.values[0])) if len(n.values) == 1 else 0
    elif k == "dropnot": n.op = ast.UAdd(); repl(fn, n, n.operand)
    elif k == "noguard": n.test = ast.Constant(True)
    elif k == "dropelse": n.orelse = []
    elif k == "const":
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif k == "swapargs": n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == "dropkw": n.keywords.pop(rnd.randrange(len(n.keywords)))
    elif k == "swapobj":
        m = {"self": ["other", "other_profile"], "other": ["self"], "other1": ["other2"], "other2": ["other1"], "other_profile": ["self"]}
        args = {a.arg for a in fn.args.args}
        c = [x for x in m[n.value.id] if x in args]
        if not c: return False
        n.value.id = c[0]
    elif k == "aug":
        _, f, j = kind.split(":"); b = getattr(n, f); s = b[int(j)]
        b[int(j)] = ast.copy_location(ast.Assign([s.target], s.value), s)
    elif k in ("delstmt", "delraise"):
        _, f, j = kind.split(":"); b = getattr(n, f); b[int(j)] = ast.copy_location(ast.Pass(), b[int(j)])
    return True


def repl(fn, old, new):
    for p in ast.walk(fn):
        for f, v in ast.iter_fields(p):
            if v is old: setattr(p, f, new)
            elif isinstance(v, list) and old in v: v[v.index(old)] = new


STORE = None
CONES = None


def setup():
    global STORE, CONES
    STORE = Store()
    CONES = {}
    for p in spec.PROPS:
        if p.cells == "^$": continue
        a, b = engine.cone(p, STORE, "quick")
        CONES[p.id] = (a | b, re.compile(p.cells) if p.cells else None, re.compile(p.notcells) if p.notcells else None)


def work(job):
    mod, qual, i, kind, seed = job
    rnd = random.Random(seed)
    info = {}
    def tr(name, tree):
        if name.split(".", 1)[-1] != mod: return tree
        cn, _, fnm = qual.split(":")[1].rpartition(".")
        for c in ast.walk(tree):
            if (cn and isinstance(c, ast.ClassDef) and c.name == cn) or (not cn and isinstance(c, ast.Module)):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name == fnm and ast.dump(f) == job_dump[0]:
                        old = ast.unparse(f)
                        if not apply(f, i, kind, rnd): return tree
                        new = ast.unparse(f)
                        info["old"], info["new"] = old, new
        t = ast.parse(ast.unparse(tree))
        return t
    job_dump = [DUMPS[qual]]
    ix = Index(transform=tr)
    if not info or info["old"] == info["new"]: return None
    hits = {}
    run = engine.Run(ix, STORE)
    aff = {qual} | STORE.callers.get(qual, set())
    for q in sorted(aff):
        if not any(q in c for c, _, _ in CONES.values()): continue
        try:
            st, diffs, _ = run.compare(q)
        except Exception as e:
            return ("EXC", job, repr(e), info)
        for d in diffs:
            for pid, (c, ce, ne) in CONES.items():
                if q in c and (ce is None or ce.search(d.cell)) and (ne is None or not ne.search(d.cell)):
                    hits.setdefault(pid, set()).add(q)
    incone = [pid for pid, (c, _, _) in CONES.items() if aff & c]
    return ("ok", job, hits, info, incone)


DUMPS = {}


def main():
    n = int(sys.argv[1]); seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1; sub = sys.argv[3] if len(sys.argv) > 3 else ""
    setup()
    ix = Index()
    rnd = random.Random(seed)
    allc = set().union(*[c for c, _, _ in CONES.values()])
    fs = []
    for f in ix.functions():
        if f.is_setter or sub not in f.qual: continue
        aff = {f.qual} | STORE.callers.get(f.qual, set())
        if not aff & allc: continue
        if f.qual in DUMPS: continue
        DUMPS[f.qual] = ast.dump(f.node)
        for i, k in muts(f.node):
            fs.append((f.module.name.split(".", 1)[-1], f.qual, i, k, rnd.random()))
    print(len(fs), "sites")
    jobs = rnd.sample(fs, min(n, len(fs)))
    tot = collections.Counter(); got = collections.Counter(); missed = []
    with Pool(8) as p:
        for r in p.imap_unordered(work, jobs, chunksize=4):
            if r is None: continue
            if r[0] == "EXC": print("EXC", r[1], r[2]); continue
            _, job, hits, info, incone = r
            k = job[3].split(":")[0]
            tot[k] += 1
            if hits: got[k] += 1
            else: missed.append((job, info, incone))
    for k in sorted(tot): print("%-10s %d/%d" % (k, got[k], tot[k]))
    print("TOTAL %d/%d" % (sum(got.values()), sum(tot.values())))
    import difflib
    for job, info, incone in sorted(missed, key=lambda x: x[0][1]):
        d = [l for l in difflib.unified_diff(info["old"].splitlines(), info["new"].splitlines(), lineterm="", n=0) if not l.startswith(("---", "+++", "@@"))]
        print("MISSED", job[3], job[1], incone)
        for l in d[:4]: print("     ", l[:200])

if __name__ == "__main__":
    main()
