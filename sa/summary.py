"""Per-entry effect summaries: {cell: set of feature tokens}."""
import ast
import hashlib

from . import values as vv
from .evidence import parts
from .features import Features, guard_dnf
from .interp import Budget, Interp
from .values import EMPTY, UNDEF, mk, mk_ite

MAXCELLS = 120


def fields_of(v, depth=0):
    """names of fields of a frozen structured value, or None"""
    if v.k == "op" and (v.d.startswith("struct:")):
        if v.d == "struct:list" and len(v.a) > 6:
            return None
        return [x.d[4:] for x in v.a if x.k == "op" and x.d.startswith("fld:")]
    if v.k == "op" and v.d == "mod":
        return [x.d[4:] for x in v.a[1:] if x.k == "op" and x.d.startswith("fld:")] + ["<base>"]
    if v.k == "tup":
        return ["(%d)" % i for i in range(len(v.a))]
    if v.k == "ite" and depth < 8:
        a, b = fields_of(v.a[1], depth + 1), fields_of(v.a[2], depth + 1)
        if a is None or b is None:
            return None
        return a + [x for x in b if x not in a]
    return None


def project(v, f, memo):
    if v in memo:
        return memo[v]
    r = UNDEF
    if v.k == "ite":
        r = mk_ite(v.a[0], project(v.a[1], f, memo), project(v.a[2], f, memo))
    elif v.k == "tup":
        i = int(f[1:-1])
        r = v.a[i] if i < len(v.a) else UNDEF
    elif v.k == "op" and v.d == "mod" and f == "<base>":
        r = v.a[0]
    else:
        for x in v.a:
            if x.k == "op" and x.d == "fld:" + f:
                r = x.a[0]
    memo[v] = r
    return r


def decompose(name, v, out, depth=0):
    fs = fields_of(v)
    if not fs or depth > 4 or len(out) > MAXCELLS:
        out.append((name.replace("[]", ""), v))
        return
    for f in fs:
        x = project(v, f, {})
        n = name + (f if f[0] in "[(" else "." + f if f != "<base>" else "")
        decompose(n, x, out, depth + 1)


def wordless(t):
    """a fact without the text constants in it"""
    return "".join(x if isinstance(x, str) else
                   "{" + ",".join(sorted(y for y in x if not y.startswith(("#'", '#"')))) + "}" for x in parts(t))


def uncarried(v, memo):
    """the value with loop variables reduced to what they hold before the loop"""
    r = memo.get(v)
    if r is None:
        if not v.a:
            r = v
        elif v.k == "mu":
            r = mk("mu", v.d, uncarried(v.a[0], memo))
        else:
            a = [uncarried(x, memo) for x in v.a]
            r = v if all(x is y for x, y in zip(a, v.a)) else mk_ite(*a) if v.k == "ite" else mk(v.k, v.d, *a)
        memo[v] = r
    return r


# large helpers with contracts of their own, not entered from elsewhere
APART = {"data_readers.graph_data:": ("data_readers.csv_data:CSVData._guess_delimiter_and_quotechar",
                                      "data_readers.csv_data:CSVData._guess_header_row",
                                      "data_readers.base_data:BaseData.file_encoding"),
         "profilers.profiler_options:ProfilerOptions._": ("profilers.profiler_options:ProfilerOptions.set",)}


class Summary:
    pass


def summarise(ix, qual, opaque=()):
    """-> Summary with .cells {name: frozenset(tokens)}, .status"""
    s = Summary()
    s.qual = qual
    s.cells = {}
    s.status = "ok"
    s.notes = set()
    s.called = set()
    s.tables = set()
    s.result = None
    vv.reset()
    for p, qs in APART.items():
        if qual.startswith(p):
            opaque = tuple(opaque) + qs
    it = Interp(ix, opaque)
    try:
        r = it.run(qual)
    except Budget:
        s.status = "budget"
        return s
    except RecursionError:
        s.status = "recursion"
        return s
    if r is None:
        s.status = "gone"
        return s
    s.result = r
    s.notes = it.notes
    s.called = it.called
    s.tables = {v.d for v, t in it.tables.items() if t}
    s.untabled = {v.d for v, t in it.tables.items() if v.k == "attr" and not t} - s.tables
    s.steps = it.steps
    F = Features()
    s.F = F
    st = r.st
    vals = []
    if not st.dead:
        decompose("ret", it.freeze(r.ret, st), vals)
    for loc, d in list(st.heap.items()):
        root = loc
        while root.k in ("attr", "item", "elem") or (root.k == "op" and root.d == "copy"):
            root = root.a[0]
        if root.k != "sym" and root.k != "cls":
            if loc.k != "call" or loc.d[0] not in ("m.get", "m.setdefault"):
                continue
            nm = "<%s>" % F.ls(F.leaves(loc))
        else:
            nm = F.path(loc) or "?"
        for f, x in d.items():
            if x is it.initial(loc, f):
                continue
            nm2 = nm + ("[]" if f == "[]" else f if f[0] == "[" else "." + f)
            decompose(nm2, it.freeze(x, st), vals)
    memo, exact = {}, {}
    for n, v in vals:
        exact.setdefault(n, set()).add(vv.digest(v, memo))
    bare = {}
    vals = [(n, uncarried(v, bare)) for n, v in vals]
    for n, v in vals:
        s.cells.setdefault(n, set()).update(F.features(v))
    s.vals = vals
    for e in r.events:
        if e["kind"] in ("raise", "do", "with", "warn"):
            exact.setdefault(e["kind"] + " " + e["name"], set()).add(
                ",".join([vv.digest(v, memo) for v in e["args"]] + [
                    vv.digest(mk_ite(vv.mk_and(*e["guards"]), vv.TRUE, vv.FALSE), memo)]))
        for k in ("args", "guards"):
            e[k] = tuple(uncarried(v, bare) for v in e[k])
        if e["kind"] == "raise":
            c = s.cells.setdefault("raise " + e["name"], set())
            for v in e["args"]:
                c |= {"with " + wordless(t) for t in F.features(v)
                      if t.startswith(("leaf ", "item{", "m.")) and not t.startswith("leaf #")}
            for conj in guard_dnf(F, e["guards"]):
                c.add("when " + " & ".join(sorted(conj)))
        elif e["kind"] in ("do", "with", "warn"):
            nm = e["name"]
            c = s.cells.setdefault(e["kind"] + " " + nm, set())
            for v in e["args"]:
                c |= F.features(v)
            for conj in guard_dnf(F, e["guards"]):
                c.add("when " + " & ".join(sorted(conj)))
            if e["fin"]:
                c.add("finally")
    s.events = r.events
    s.exact = {c: hashlib.sha1(" ".join(sorted(x)).encode()).hexdigest()[:8] for c, x in exact.items()}
    for n, t in defaults(r.fi):
        s.cells["default of " + n] = {"is " + t}
    return s


def defaults(fi):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if isinstance(d, ast.Constant) or isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
            yield x.arg, ast.unparse(d)
