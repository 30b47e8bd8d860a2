"""Reference dependence contracts and their comparison with the current source.

A contract states, for one entry point and one output cell (a returned value, an attribute
it leaves behind, an exception, an external effect), from which inputs, through which
operations and under which conditions the cell gets its value.  The comparison is between
two such sets; the text of the program plays no part in it."""
import ast
import copy
import hashlib
import io
import json
import os
import re
import tokenize
from collections import Counter

from .consts import constants
from .evidence import coarse, evidence
from .index import Index
from .summary import summarise

HERE = os.path.dirname(os.path.abspath(__file__))
STORE = os.path.join(os.path.dirname(HERE), "contracts", "summaries.json")
MAXTOK = 1500
REWRITTEN = 5, 8  # at least so many tokens on both sides, so many on one
GRADED = os.environ.get("GRADED") != "0"
HEAD = re.compile(r"([A-Za-z_][\w.:]*)(?=\{)")


def is_public(qual):
    name = qual.split(":")[1].rstrip("=")
    return all(not p.startswith("_") or (p.startswith("__") and p.endswith("__"))
               for p in name.split("."))


def signature(fi):
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if fi.cls is not None and not fi.is_static:
        names = ["@"] + names[1:]
    return ",".join(names + ["*"] * (a.vararg is not None) + sorted(x.arg for x in a.kwonlyargs)
                    + ["**"] * (a.kwarg is not None))


class _Strip(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
        n.returns = None
        return n

    def visit_arg(self, n):
        n.annotation = None
        return n


def fn_hash(fi):
    t = _Strip().visit(copy.deepcopy(fi.node))
    return hashlib.sha1(ast.dump(t).encode()).hexdigest()[:12]


def fn_tokens(fi):
    """the function's tokens without docstrings, annotations, comments and layout"""
    t = _Strip().visit(copy.deepcopy(fi.node))
    t.name = "_"
    src = ast.unparse(t)
    return [x.string for x in tokenize.generate_tokens(io.StringIO(src).readline) if x.string.strip()]


def key_of(f):
    return f.qual + ("=" if f.is_setter else "")


def reexpressed(store, ix, changed, gone):
    """functions that were written anew rather than edited: many of their tokens went and many
    others came (moved tokens count for neither).  Their outputs are compared by which data
    reaches them and on which side of a condition, not operation by operation."""
    now = {key_of(f): f for f in ix.functions()}
    out = set()
    bymod = {}
    for q in changed | gone:
        bymod.setdefault(q.split(":")[0], set()).add(q)
    for qs in bymod.values():
        old = {q: Counter(store.texts.get(q, ())) for q in qs if q in store.hashes}
        new = {q: Counter(fn_tokens(now[q])) for q in qs if q in now}
        groups = [{q} for q in qs if q in old and q in new]
        if set(old) != set(new):
            groups = [set(qs)]  # functions came or went: judged together
        for g in groups:
            a = sum((old[q] for q in g if q in old), Counter())
            b = sum((new[q] for q in g if q in new), Counter())
            gone_n, come_n = sum((a - b).values()), sum((b - a).values())
            if min(gone_n, come_n) >= REWRITTEN[0] and max(gone_n, come_n) >= REWRITTEN[1]:
                out |= g
    return out


TINY = 8


def substituted(store, ix, changed, gone):
    """functions in which a few tokens came, went or were exchanged in one spot, nothing else moving"""
    now = {key_of(f): f for f in ix.functions()}
    if gone or any(q not in store.hashes for q in changed):
        return set()
    out = set()
    for q in changed:
        a, b = store.texts.get(q, ()), fn_tokens(now[q])
        i = 0
        while i < min(len(a), len(b)) and a[i] == b[i]:
            i += 1
        j = 0
        while j < min(len(a), len(b)) - i and a[-1 - j] == b[-1 - j]:
            j += 1
        x, y = a[i:len(a) - j], b[i:len(b) - j]
        if {"and", "or"} & set(x) and Counter(x) == Counter(y):
            continue  # operands changed places
        if len(x) <= TINY and len(y) <= TINY:
            out.add(q)
    return out


def shorten(t):
    if len(t) <= MAXTOK:
        return t
    # (a condition without normal form stays recognisable)
    return t[:1200] + "...#" + hashlib.sha1(t.encode()).hexdigest()[:12] + (" cond{" if "cond{" in t[1200:] else "")


def entry_quals(ix):
    out = []
    for f in ix.functions():
        if f.qual.startswith(("_version:", "dp_logging:")):
            continue
        out.append(f.qual + ("=" if f.is_setter else ""))
    return sorted(set(out))


def cells_of(s):
    return {c: {shorten(t) for t in toks} for c, toks in s.cells.items()}


def build(ix=None, log=None):
    ix = ix or Index()
    ents = {}
    hashes, texts = {}, {}
    for f in ix.functions():
        hashes[key_of(f)] = fn_hash(f)
        texts[key_of(f)] = " ".join(x.replace(" ", "\u00a0") for x in fn_tokens(f))
    for q in entry_quals(ix):
        s = summarise(ix, q)
        r = ix.lookup(q)
        e = {"status": s.status, "sig": signature(r[1]) if r else "",
             "called": sorted(x for x in s.called if "<" not in x and x != q)}
        if s.status == "ok":
            e["cells"] = {c: sorted(t) for c, t in cells_of(s).items()}
            e["tables"] = sorted(s.tables)
            e["exact"] = "".join(s.exact.get(c, " " * 8) for c in sorted(e["cells"]))
        ents[q] = e
        if log:
            log(q, s)
    toks = sorted({t for e in ents.values() for c in e.get("cells", {}).values() for t in c})
    idx = {t: i for i, t in enumerate(toks)}
    for e in ents.values():
        if "cells" in e:
            e["cells"] = {c: [idx[t] for t in v] for c, v in sorted(e["cells"].items())}
    return {"tokens": toks, "hashes": hashes, "texts": texts, "entries": ents,
            "consts": {k: v for k, (v, _) in sorted(constants(ix).items())}}


class Store:
    def __init__(self, path=STORE):
        with open(path) as f:
            d = json.load(f)
        self.tokens = d["tokens"]
        self.hashes = d["hashes"]
        self.entries = d["entries"]
        self.consts = d["consts"]
        self.texts = {q: [x.replace("\u00a0", " ") for x in t.split(" ") if x] for q, t in d["texts"].items()}
        self.universe = set()
        for t in self.tokens:
            self.universe.update(HEAD.findall(t))
        self._callers = None

    def cells(self, q):
        return {c: {self.tokens[i] for i in v} for c, v in self.entries[q]["cells"].items()}

    @property
    def callers(self):
        """function -> entries whose analysis entered it"""
        if self._callers is None:
            self._callers = {}
            for q, e in self.entries.items():
                for x in e["called"]:
                    self._callers.setdefault(x, set()).add(q)
        return self._callers


INPUT = re.compile(r"^leaf (?!#|mod:|fn|new:|cls:|%)")


def compare_cell(cell, ref, cur, universe, rewritten=False):
    """-> (missing, extra, mode) or None when the difference is no evidence"""
    if ref == cur:
        return None
    rc, cc = any(t.startswith("cond ") for t in ref), any(t.startswith("cond ") for t in cur)
    if rc != cc or any("cond{" in t for t in ref) or any("cond{" in t for t in cur):
        # conditions too large for a normal form: not compared
        ref = {t for t in ref if not t.startswith(("cond ", "if ", "when ", "item "))}
        cur = {t for t in cur if not t.startswith(("cond ", "if ", "when ", "item "))}
    m, e = ref - cur, cur - ref
    if not m and not e:
        return None
    heads = set()
    for t in e:
        heads.update(HEAD.findall(t))
    new = {h for h in heads if h not in universe and not any(
        h.startswith(p) and h[len(p):] in universe for p in ("isnone", "truthy", "in", "len", "isinstance"))}
    if new:
        # an operation the contracts never speak about: fall back to the inputs
        if cell.startswith(("raise ", "warn ", "do ", "with ")):
            return None
        m = {t for t in m if INPUT.match(t)}
        e = {t for t in e if INPUT.match(t)}
        if not m and not e:
            return None
        return m, e, "inputs"
    if rewritten:
        return (m, e, "coarse") if coarse(ref, cur) else None
    if GRADED and not evidence(ref, cur):
        return None
    return m, e, "full"


class Diff:
    def __init__(self, qual, cell, missing, extra, mode, fi, note=""):
        self.qual, self.cell, self.missing, self.extra, self.mode = qual, cell, missing, extra, mode
        self.fi, self.note = fi, note

    @property
    def where(self):
        return self.fi.loc() if self.fi else "?"


def changed_functions(store, ix):
    now = {}
    for f in ix.functions():
        now[f.qual + ("=" if f.is_setter else "")] = fn_hash(f)
    ch = {q for q, h in now.items() if store.hashes.get(q) != h}
    gone = set(store.hashes) - set(now)
    return ch, gone


def compare_entry(store, ix, q, rewritten=frozenset(), changed=frozenset(), tiny=frozenset()):
    """-> (status, [Diff], counts)"""
    ref = store.entries.get(q)
    if ref is None or ref["status"] != "ok":
        return "unanalysed", [], (0, 0)
    r = ix.lookup(q)
    if r is None:
        return "vanished", [], (0, 0)
    fi = r[1]
    if signature(fi) != ref["sig"] and not is_public(q):
        return "resigned", [], (0, 0)
    s = summarise(ix, q)
    if s.status != "ok":
        return "imprecise", [], (0, 0)
    if set(ref["tables"]) & s.untabled:
        # a dispatch table that used to be readable is not any more
        return "imprecise", [], (0, 0)
    rc, cc = store.cells(q), cells_of(s)
    rew = not rewritten.isdisjoint({q} | set(ref["called"]) | set(s.called))
    out = []
    n = 0
    inner = {x for x in changed if x == q or x in s.called or x in ref["called"]}
    exact = inner and inner <= tiny
    old = {c: ref["exact"][i * 8:i * 8 + 8] for i, c in enumerate(sorted(rc))}
    for c in sorted(set(rc) | set(cc)):
        if c.startswith("default of ") and (c not in rc or c not in cc):
            continue
        a, b = rc.get(c, set()), cc.get(c, set())
        n += len(a | b)
        d = compare_cell(c, a, b, store.universe, rew)
        if d:
            out.append(Diff(q, c, d[0], d[1], d[2], fi))
        elif exact and c in rc and c in cc and old[c].strip() and old[c] != s.exact.get(c):
            out.append(Diff(q, c, set(), set(), "exact", fi, "same facts, different value: %s" % ", ".join(sorted(inner))))
    return "ok", out, (len(set(rc) | set(cc)), n)
