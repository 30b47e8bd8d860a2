"""Runs the contract comparison and the rules of one property and reports."""
import fnmatch
import json
import os
import re
import time

from . import contract, resources, rules, spec
from .contract import Store, changed_functions, compare_entry, is_public, reexpressed, substituted
from .index import Index


def cone(prop, store, tier):
    """-> (entries named by the property, entries they enter)"""
    names = set()
    quals = store.entries
    for pat in prop.patterns():
        names.update(q for q in quals if fnmatch.fnmatchcase(q, pat))
    for pat in prop.exclude:
        names -= {q for q in names if fnmatch.fnmatchcase(q, pat)}
    inner = set()
    for q in names:
        inner.update(x for x in quals[q]["called"] if x in quals)
    if tier == "thorough":
        # ... and everything that enters them
        for q in list(names):
            inner.update(store.callers.get(q, ()))
    return names, inner - names


def blocked(store, q, changed):
    """a private function's new summary may be made up for by a changed function outside it"""
    return sorted(x for x in changed if x != q and x not in store.entries[q]["called"])


class Run:
    def __init__(self, ix=None, store=None, root=None):
        self.ix = ix or Index(root)
        self.store = store or Store()
        self.changed, self.gone = changed_functions(self.store, self.ix)
        # functions that existed before: only their new bodies can make up for anything
        self.old_changed = {q for q in self.changed if q in self.store.hashes}
        self.rewritten = reexpressed(self.store, self.ix, self.changed, self.gone)
        self.tiny = substituted(self.store, self.ix, self.changed, self.gone)
        self.memo = {}

    def compare(self, q):
        if q not in self.memo:
            if self.only_changed and not self.touched(q):
                self.memo[q] = "ok", [], (0, 0)
            else:
                self.memo[q] = compare_entry(self.store, self.ix, q, self.rewritten, self.changed, self.tiny)
        return self.memo[q]

    only_changed = False  # development aid: skip entries that enter no changed function

    def touched(self, q):
        ch = self.changed | self.gone
        return q in ch or not ch.isdisjoint(self.store.entries[q]["called"])


    def artifact(self, q):
        """the entry's own text is unchanged, and every changed function it enters meets its own contract"""
        if q in self.changed:
            return False
        st = self.store.entries
        inner = [f for f in self.old_changed if f in st[q]["called"]]
        if not inner:
            return False
        for f in inner:
            if f not in st:
                return False
            status, diffs, _ = self.compare(f)
            if status != "ok" or diffs:
                return False
        return not any(g in st[q]["called"] for g in self.gone)


def contract_diffs(run, prop, tier, stats, notes):
    store, ix = run.store, run.ix
    names, inner = cone(prop, store, tier)
    cre = re.compile(prop.cells) if prop.cells else None
    nre = re.compile(prop.notcells) if prop.notcells else None
    if prop.cells == r"^$":
        return []
    out = []
    for q in sorted(names | inner):
        status, diffs, (nc, nt) = run.compare(q)
        stats["entries"] = stats.get("entries", 0) + 1
        stats["entries_" + status] = stats.get("entries_" + status, 0) + 1
        stats["output_cells"] = stats.get("output_cells", 0) + nc
        stats["dependence_facts"] = stats.get("dependence_facts", 0) + nt
        if status not in ("ok", "unanalysed"):
            notes.append("%s: %s" % (status, q))
        diffs = [d for d in diffs if (cre is None or cre.search(d.cell))
                 and (nre is None or not nre.search(d.cell))]
        if diffs and run.artifact(q):
            notes.append("%s differs, but no changed function it enters does: not counted" % q)
            continue
        if diffs and not is_public(q):
            b = blocked(store, q, run.old_changed)
            if b:
                notes.append("private %s differs, together with %s: judged at its callers" % (q, b[0]))
                continue
        out += diffs
    if names and stats.get("entries_ok", 0) * 2 < stats["entries"]:
        raise Broken("only %d of %d entries can be analysed" % (stats.get("entries_ok", 0), stats["entries"]))
    return out


class Broken(Exception):
    pass


def load_findings(here):
    """known-findings lines: 'known: property=ID key=<key> <text>' / 'fixed: ...'"""
    out = []
    p = os.path.join(here, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m:
                out.append(m.groups())
    return out


def describe(d):
    def f(x):
        return x if len(x) < 260 else x[:260] + "..."
    ln = ["%s: %s" % (d.where, d.qual), "  output: %s   (%s comparison)" % (d.cell, d.mode)]
    ln += ["  no longer: " + f(t) for t in sorted(d.missing)[:6]]
    ln += ["  now:       " + f(t) for t in sorted(d.extra)[:6]]
    n = max(0, len(d.missing) - 6) + max(0, len(d.extra) - 6)
    if n:
        ln.append("  ... and %d more" % n)
    return "\n".join(ln)


def decide(pid, tier, here, run=None):
    """-> (violations [(key, text)], known hits, stats, notes)"""
    prop = spec.BY_ID[pid]
    run = run or Run()
    stats, notes = {}, []
    viol = []
    for d in contract_diffs(run, prop, tier, stats, notes):
        viol.append(("contract|%s|%s" % (d.qual, d.cell), describe(d)))
    for name in prop.rules + ([] if prop.cells == r"^$" else ["constants_kept"]):
        r = rules.RULES.get(name)
        if r is None:
            continue
        res = r(run, prop)
        stats["rule_%s_instances" % name] = res.instances
        if res.instances < res.floor:
            raise Broken("rule %s: %d instances, %d were confirmed by hand" % (name, res.instances, res.floor))
        viol += [("%s|%s" % (name, k), t) for k, t in res.violations]
    stats["modules"] = len(run.ix.modules)
    stats["functions_indexed"] = len(list(run.ix.functions()))
    return viol, stats, notes


def check(pid, tier, here):
    t0 = time.time()
    if pid not in spec.BY_ID:
        print("unknown property", pid)
        return 2
    prop = spec.BY_ID[pid]
    try:
        viol, stats, notes = decide(pid, tier, here)
    except Broken as e:
        print("analysis broken: %s" % e)
        return 2
    known = [(k, t) for p, k, t in load_findings(here) if p == pid]
    keys = {k for k, _ in known}
    new = [(k, t) for k, t in viol if k.replace(" ", "_") not in keys]
    hit = {k.replace(" ", "_") for k, t in viol} & keys
    for k, t in known:
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, t))
    ev = os.path.join(here, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, "%s.violations.txt" % pid)
    if new:
        with open(replay, "w") as f:
            for k, t in new:
                f.write("[%s]\n%s\n\n" % (k, t))
        for k, t in new[:12]:
            print("[%s]" % k)
            print(t)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    elif os.path.exists(replay):
        os.remove(replay)
    cov = dict(stats)
    cov["known_findings_matched"] = len(hit)
    cov["explanation"] = (
        "Every entry point of the property's cone (and every function the analysis enters from it) was abstractly "
        "interpreted from its current source; for each output cell the dependence facts (inputs, operations, conditions) "
        "were compared with the reviewed contract" + (
            "; plus the structural rules " + ", ".join(prop.rules) if prop.rules else "") +
        ". Entries listed under entries_imprecise/vanished/resigned/unanalysed were not decided.")
    cov["not_decided"] = notes[:40]
    doc = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
           "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(new),
           "assumptions": [
               "library calls (numpy, pandas, ...) are uninterpreted functions of their arguments",
               "loops are summarised by what one iteration adds to the state before it",
               "contracts were reviewed against the source at the commits recorded in known-findings.txt"]}
    with open(os.path.join(ev, "%s.json" % pid), "w") as f:
        json.dump(doc, f, indent=1)
    if not new:
        print("%s held: %s" % (pid, ", ".join("%s=%s" % kv for kv in sorted(stats.items()))))
    return 1 if new else 0
