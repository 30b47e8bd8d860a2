"""false-alarm measurement: summaries of every entry before/after each rewrite"""
import os, sys, time
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import time, ast, collections
sys.path.insert(0, "/verif"); sys.setrecursionlimit(30000)
from multiprocessing import Pool
from sa.index import Index
import dev.refactor as rf
from sa.contract import Store, compare_cell, shorten
U = Store().universe

def sums(arg):
    name, quals = arg
    from sa.summary import summarise
    fn = rf.R.get(name)
    def tr(mod, tree):
        t = fn(tree) if fn else tree
        src = ast.unparse(t)
        return ast.parse(src)
    ix = Index(transform=tr)
    out = {}
    for q in quals:
        try:
            s = summarise(ix, q)
            out[q] = (s.status, {c: frozenset(t) for c, t in s.cells.items()}, getattr(s, "exact", {}))
        except Exception as e:
            out[q] = ("EXC " + repr(e)[:80], {}, {})
    return name, out

def main(only, show=None):
    ix = Index()
    quals = sorted({f.qual for f in ix.functions() if not f.is_setter})
    names = [n for n in rf.R if not only or n in only]
    with Pool(8) as p:
        res = dict(p.map(sums, [("__base__", quals)] + [(n, quals) for n in names], chunksize=1))
    base = res.pop("__base__")
    for n in names:
        bad = collections.OrderedDict(); xs = {}
        for q, (st, cells, ex) in res[n].items():
            bst, bc, bex = base[q]
            if bst != "ok" or st != "ok":
                if bst != st: bad[q] = {"status": (bst, st)}
                continue
            d = {}
            for c in set(cells) | set(bc):
                a, b = bc.get(c, frozenset()), cells.get(c, frozenset())
                a, b = {shorten(t) for t in a}, {shorten(t) for t in b}
                r = compare_cell(c, a, b, U)
                if r: d[c] = r[:2]
            if d: bad[q] = d
            elif bex != ex: xs[q] = sorted(c for c in set(ex) | set(bex) if ex.get(c) != bex.get(c))
        print("%-24s entries differing: %d" % (n, len(bad)), sum(v[0].startswith("EXC") for v in res[n].values()) or "", "exact", len(xs))
        if show:
            for q in sorted(xs, key=lambda q: len(xs[q]))[:show * 2]: print("    X", q, xs[q][:4])
            k = 0
            # smallest diffs first
            for q, d in sorted(bad.items(), key=lambda kv: sum(len(x) + len(y) for x, y in kv[1].values())):
                print("   ", q)
                for c, (m, e) in list(d.items())[:3]:
                    print("       cell", c)
                    for t in sorted(m, key=len)[:4] if not isinstance(m, str) else [m]: print("          -", t[:260])
                    for t in sorted(e, key=len)[:4] if not isinstance(e, str) else [e]: print("          +", t[:260])
                k += 1
                if k >= show: break
if __name__ == "__main__":
    a = sys.argv[1:]
    show = None
    if a and a[0].isdigit(): show = int(a.pop(0))
    main(a, show)
