"""Is a difference between two sets of dependence facts evidence of different behaviour?

Two ways of writing the same computation can differ in how precisely the analysis knows the
operands (an alternative merged into its neighbour, a constant mentioned in a larger set).
Such differences leave the projections below unchanged:

  inputs      which inputs and (non-trivial) constants reach the cell
  operations  per operation and operand position, which inputs can be there, and
              which constants can be there alone
  values      the arithmetic value numbers
  conditions  which atoms decide, and which inputs each atom selects on its two sides
              (only a contradiction counts: selected on one side before, on the other now)
  guards      the conditions of exceptions, effects and collected items"""
import re

TRIVIAL = {"#0", "#1", "#-1", "#None", "#''", "#True", "#False", "#0.0", "#1.0"}


def split(s):
    """token -> list of text pieces and frozensets, in order"""
    out, i, n, buf = [], 0, len(s), []
    while i < n:
        c = s[i]
        if c == "{":
            items, j, cur, depth = [], i + 1, [], 0
            while j < n:
                c = s[j]
                if c in "'\"" and (j == 0 or s[j - 1] in "#b[:(" or depth or True):
                    q = c
                    k = j + 1
                    while k < n and s[k] != q:
                        k += 2 if s[k] == "\\" else 1
                    cur.append(s[j:k + 1])
                    j = k + 1
                    continue
                if c in "([{<":
                    depth += c != "<"
                elif c in ")]}":
                    if c == "}" and depth == 0:
                        break
                    depth -= 1
                elif c == "," and depth == 0:
                    items.append("".join(cur))
                    cur = []
                    j += 1
                    continue
                cur.append(c)
                j += 1
            if cur:
                items.append("".join(cur))
            out.append("".join(buf))
            buf = []
            out.append(frozenset(items))
            i = j + 1
            continue
        buf.append(c)
        i += 1
    out.append("".join(buf))
    return out


def norm(s):
    if all(x.startswith("#") for x in s):
        return s
    return frozenset(x for x in s if not x.startswith("#"))


_memo = {}


def parts(t):
    r = _memo.get(t)
    if r is None:
        r = _memo[t] = split(t)
    return r


def text(p):
    return "".join(x if isinstance(x, str) else "{" + ",".join(sorted(norm(x))) + "}" for x in p)


IF = re.compile(r"^if (.*) \+\{")


def project(toks):
    leaf, calc, ops, atoms, guards = set(), set(), {}, {}, set()
    for t in toks:
        p = parts(t)
        if t.startswith("leaf "):
            if t[5:] not in TRIVIAL:
                leaf.add(t)
            continue
        if "calc{" in t and not t.startswith(("if ", "when ", "item ", "cond ")):
            calc.add(p[0] + p[-1])
            continue
        if t.startswith("if "):
            # ATOM +{..} -{..}[ ~..]
            k = len(p) - 1
            i = next((i for i, x in enumerate(p) if isinstance(x, str) and x.endswith(" +")), None)
            if i is None or i + 3 >= len(p):
                atoms.setdefault(text(p), (set(), set()))
                continue
            a = text(p[:i]) + p[i][:-2]
            e = atoms.setdefault(a, (set(), set()))
            e[0].update(p[i + 1])
            e[1].update(p[i + 3])
            rest = text(p[i + 4:])
            if rest.startswith(" ~ "):
                hi, _, lo = rest[3:].partition(" ! ")
                e[0].update("~" + x for x in hi.split(" ; ") if x)
                e[1].update("~" + x for x in lo.split(" ; ") if x)
            continue
        if t.startswith(("when", "item ", "cond ", "is ", "finally")):
            guards.add(text(p))
            continue
        head = "{}".join(x for x in p if isinstance(x, str))
        sets = [x for x in p if not isinstance(x, str)]
        e = ops.setdefault((head, len(sets)), [set() for _ in sets])
        for x, s in zip(sets, e):
            if len(x) == 1 or not all(y.startswith("#") for y in x):
                s.update(norm(x))
    return leaf, calc, ops, atoms, guards


def data(s):
    return {x for x in s if x[0] not in "#~"}


SMALL = 6


def evidence(ref, cur):
    """list of reasons, empty when the two agree in every projection"""
    if min(len(ref), len(cur)) <= SMALL:
        return [("small", sorted(ref - cur), sorted(cur - ref))]
    a, b = project(ref), project(cur)
    out = []
    ta, tb = ({t for t in x if t[:5] == "leaf " and t[5:] in TRIVIAL} for x in (ref, cur))
    if ta - tb and tb - ta:
        out.append(("constant", ta - tb, tb - ta))
    for n, x, y in (("input", a[0], b[0]), ("value", a[1], b[1]), ("guard", a[4], b[4])):
        if x != y:
            out.append((n, sorted(x - y)[:3], sorted(y - x)[:3]))
    for k in a[2].keys() | b[2].keys():
        x, y = a[2].get(k), b[2].get(k)
        if x != y:
            out.append(("operation", k, x, y))
    for k in a[3].keys() | b[3].keys():
        x, y = a[3].get(k), b[3].get(k)
        if x is None or y is None:
            out.append(("condition", k, x, y))
            continue
        rp, rm = x[0] - x[1], x[1] - x[0]
        cp, cm = y[0] - y[1], y[1] - y[0]
        if rp & cm or rm & cp:
            out.append(("side", k, rp & cm, rm & cp))
        elif data(rp) != data(cp) or data(rm) != data(cm):
            out.append(("selects", k, data(rp) ^ data(cp), data(rm) ^ data(cm)))
    return out


SOURCE = re.compile(r"^leaf (?!#|mod:|fn|new:|cls:|%)")


def coarse(ref, cur):
    """evidence that survives a rewriting of the function: an output that came or went, other
    data reaching it, or data selected on the opposite side of the same condition"""
    if not ref or not cur:
        return [("cell", len(ref), len(cur))]
    x, y = ({t.replace("[.]", "").replace("[#]", "") for t in s if SOURCE.match(t)} for s in (ref, cur))
    if x != y:
        return [("input", sorted(x - y)[:3], sorted(y - x)[:3])]
    n, m = ({t[len("isnone"):] for t in s if t.startswith("isnone{")} for s in (ref, cur))
    p, q = ({t[len("truthy"):] for t in s if t.startswith("truthy{")} for s in (ref, cur))
    if (n - m) and (q - p) or (m - n) and (p - q):
        return [("test for None", sorted(n ^ m)[:2], sorted(p ^ q)[:2])]
    return [r for r in (evidence(ref, cur) if min(len(ref), len(cur)) > SMALL else ()) if r[0] == "side"]
