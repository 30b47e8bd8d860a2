"""dev/fa1.py N [seed]: small behaviour-preserving edits at single sites; reports those the checks see (false alarms)"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, "/verif"); sys.setrecursionlimit(30000)
import ast, collections, copy, random, re
from multiprocessing import Pool
from sa.index import Index
from sa import engine, spec, contract
from sa.contract import Store
import dev.refactor as rf
import dev.mutate as mu

SKIP = {"rename_locals", "extract_method", "extract_function", "guard_clause", "else_after_return", "drop_else_after_return", "loop_to_comp", "if_true_wrap", "get_default"}
EX = {}
def ex(f):
    EX[f.__name__] = f
    return f
def tr(tree, cls):
    return ast.fix_missing_locations(cls().visit(tree))
@ex
def dict_call(tree):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and not n.args and not n.keywords:
                if n.func.id == "dict": return ast.Dict([], [])
                if n.func.id == "list": return ast.List([], ast.Load())
            return n
        def visit_Dict(self, n):
            self.generic_visit(n)
            return ast.Call(ast.Name("dict", ast.Load()), [], []) if not n.keys else n
        def visit_List(self, n):
            self.generic_visit(n)
            return ast.Call(ast.Name("list", ast.Load()), [], []) if not n.elts and isinstance(n.ctx, ast.Load) else n
    return tr(tree, T)
@ex
def drop_keys(tree):
    class T(ast.NodeTransformer):
        def k(self, e):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "keys" and not e.args: return e.func.value
            return e
        def visit_For(self, n):
            self.generic_visit(n); n.iter = self.k(n.iter); return n
        def visit_comprehension(self, n):
            self.generic_visit(n); n.iter = self.k(n.iter); return n
        def visit_Compare(self, n):
            self.generic_visit(n)
            if isinstance(n.ops[0], (ast.In, ast.NotIn)): n.comparators = [self.k(x) for x in n.comparators]
            return n
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "len", "sorted"): n.args = [self.k(x) for x in n.args]
            return n
    return tr(tree, T)
@ex
def range0(tree):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "range":
                if len(n.args) == 2 and isinstance(n.args[0], ast.Constant) and n.args[0].value == 0: n.args = n.args[1:]
                elif len(n.args) == 1: n.args = [ast.Constant(0)] + n.args
            return n
    return tr(tree, T)
@ex
def len_cmp(tree):
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "len" and isinstance(n.comparators[0], ast.Constant):
                c = n.comparators[0].value
                if c == 0 and isinstance(n.ops[0], ast.Gt): return ast.Compare(n.left, [ast.GtE()], [ast.Constant(1)])
                if c == 0 and isinstance(n.ops[0], ast.Eq): return ast.Compare(n.left, [ast.Lt()], [ast.Constant(1)])
                if c == 1 and isinstance(n.ops[0], ast.Gt): return ast.Compare(n.left, [ast.GtE()], [ast.Constant(2)])
            return n
    return tr(tree, T)
@ex
def not_is(tree):
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            m = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq}
            if len(n.ops) == 1 and type(n.ops[0]) in m:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m[type(n.ops[0])]()], n.comparators))
            return n
    return tr(tree, T)
@ex
def swap_isinstance(tree):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple): n.args[1].elts.reverse()
            elif isinstance(n.func, ast.Name) and n.func.id in ("min", "max") and len(n.args) == 2 and not n.keywords: n.args.reverse()
            return n
    return tr(tree, T)
@ex
def swap_and(tree):
    class T(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            simple = all(isinstance(x, (ast.Name, ast.Attribute)) or isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Is, ast.IsNot)) for x in n.values)
            if simple: n.values.reverse()
            return n
    f = tree
    # as a test only
    class U(ast.NodeTransformer):
        def visit_If(self, n):
            n.test = T().visit(n.test); self.generic_visit(n); return n
        visit_IfExp = visit_If
    return tr(tree, U)
@ex
def bool_ifexp(tree):
    class T(ast.NodeTransformer):
        def visit_IfExp(self, n):
            self.generic_visit(n)
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    return tr(tree, T)
@ex
def add_zero_pass(tree):
    for f in rf.funcs(tree):
        f.body.insert(0, ast.Pass())
    return ast.fix_missing_locations(tree)
@ex
def unused(tree):
    for f in rf.funcs(tree):
        f.body.insert(0, ast.parse("_unused = None").body[0])
    return ast.fix_missing_locations(tree)
@ex
def arith_assoc(tree):
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mult) and all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant)) for x in (n.left, n.right)) and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)): n.left, n.right = n.right, n.left
            return n
    return tr(tree, T)

def sites():
    ix = Index()
    allr = {k: v for k, v in rf.R.items() if k not in SKIP}; allr.update(EX)
    seen = set()
    for f in ix.functions():
        if f.is_setter: continue
        base = [x for x in contract.fn_tokens(f)]
        node = f.node
        for bi, n in enumerate(ast.walk(node)):
            for fld in ("body", "orelse"):
                b = getattr(n, fld, None)
                if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt): continue
                for w in (1, 2):
                    for i in range(len(b) - w + 1):
                        if any(isinstance(s, (ast.FunctionDef, ast.ClassDef)) for s in b[i:i + w]): continue
                        if sum(len(list(ast.walk(s))) for s in b[i:i + w]) > 90: continue
                        for name, fn in allr.items():
                            m = ast.Module([ast.FunctionDef("f", copy.deepcopy(node.args), [copy.deepcopy(s) for s in b[i:i + w]], [], None)], [])
                            ast.fix_missing_locations(m)
                            o = ast.unparse(m)
                            try:
                                m = fn(m)
                                o2 = ast.unparse(m)
                            except Exception:
                                continue
                            if o == o2 or len(m.body) != 1: continue
                            key = (f.qual, bi, fld, i, o2)
                            if key in seen: continue
                            seen.add(key)
                            yield f.qual, bi, fld, i, w, name, ast.unparse(ast.Module(m.body[0].body, []))

def small(args):
    job, = args
    return None

def work(job):
    qual, bi, fld, i, w, name, txt = job
    mod = qual.split(":")[0]
    def t(nm, tree):
        if nm.split(".", 1)[-1] != mod: return tree
        cn, _, fnm = qual.split(":")[1].rpartition(".")
        for c in ast.walk(tree):
            if (cn and isinstance(c, ast.ClassDef) and c.name == cn) or (not cn and isinstance(c, ast.Module)):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name == fnm and ast.dump(f) == mu.DUMPS[qual]:
                        n = list(ast.walk(f))[bi]
                        getattr(n, fld)[i:i + w] = ast.parse(txt).body
                        return ast.fix_missing_locations(ast.parse(ast.unparse(tree)))
        return tree
    ix = Index(transform=t)
    run = engine.Run(ix, mu.STORE)
    if not run.tiny: return None
    hits = {}
    aff = {qual} | mu.STORE.callers.get(qual, set())
    for q in sorted(aff):
        if not any(q in c for c, _, _ in mu.CONES.values()): continue
        st, diffs, _ = run.compare(q)
        if diffs and run.artifact(q): continue
        for d in diffs:
            for pid, (c, ce, ne) in mu.CONES.items():
                if q in c and (ce is None or ce.search(d.cell)) and (ne is None or not ne.search(d.cell)):
                    hits.setdefault(pid, []).append((q, d.cell, d.mode))
    return job, hits

if __name__ == "__main__":
    n = int(sys.argv[1]); rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    mu.setup()
    for f in Index().functions():
        if not f.is_setter and f.qual not in mu.DUMPS: mu.DUMPS[f.qual] = ast.dump(f.node)
    js = list(sites())
    by = collections.Counter(j[5] for j in js)
    print(len(js), "sites")
    rnd.shuffle(js)
    # spread over the kinds
    take, cnt = [], collections.Counter()
    cap = max(10, 2 * n // len(by))
    for j in js:
        if cnt[j[5]] < cap and len(take) < n: take.append(j); cnt[j[5]] += 1
    tot = collections.Counter(); bad = collections.Counter(); modes = collections.Counter()
    with Pool(8) as p:
        for r in p.imap_unordered(work, take, chunksize=2):
            if r is None: continue
            j, hits = r
            tot[j[5]] += 1
            if hits:
                bad[j[5]] += 1
                h = next(iter(hits.values()))[0]
                modes[h[2]] += 1
                print("ALARM", j[5], j[0], sorted(hits), h[1:], "\n      " + j[6].replace("\n", "\n      ")[:300], flush=True)
    for k in sorted(tot): print("%-22s %d/%d" % (k, bad[k], tot[k]))
    print("TOTAL", sum(bad.values()), "of", sum(tot.values()), dict(modes))
