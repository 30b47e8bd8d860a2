"""Dependence features of a gated value.

For a value graph the features are a set of readable tokens:

  leaf P            the value can depend on input path / constant P
  OP A | B          operator or call OP is applied to operands whose inputs are A, B
  if ATOM +X -Y     the condition ATOM decides between X and Y

They are insensitive to names of locals, statement order, helper boundaries, branch
polarity, nesting of conditions, early exits, commutative operand order, and to whether
a container is filled by a loop or by a comprehension."""
import hashlib
from fractions import Fraction

from . import values as vv
from .values import EMPTY, FALSE, TRUE, UNDEF, is_const

STRUCT = {"fold", "agg", "comp", "copy", "gen", "mod", "rec", "star", "enter", "default0",
          "brk", "sent", "rest"}
SHORT = {"sum", "min", "max", "mean", "any", "all", "round", "std", "var", "astype",
         "cumsum", "argmin", "argmax", "transpose", "reshape", "flatten", "dot", "abs"}
FN_ALIAS = {"np.absolute": "abs", "np.add": "+", "np.subtract": "-", "np.multiply": "*",
            "np.divide": "/", "operator.add": "+", "operator.sub": "-", "operator.mul": "*",
            "operator.truediv": "/", "np.asarray": "np.array", "math.sqrt": "np.sqrt",
            "math.isnan": "np.isnan", "pd.isna": "pd.isnull", "m.isna": "m.isnull"}
ATOMS = {"<", "<=", "==", "in", "isnone", "is"}
ARITH = {"+", "-", "*", "/", "//", "%", "**", "neg"}
RING = {"+", "-", "*", "/", "neg", "**"}
SCALAR = {"np.sqrt", "abs", "np.log2", "np.log", "math.log", "np.log10", "round", "min", "max", "float", "int",
          "np.ceil", "np.floor", "math.floor", "math.ceil", "np.power", "np.sign", "len"}
P = (1 << 61) - 1
NUM_CAP = 12
ALT_CAP = 8
ATOM_CAP = 40


def callname(n):
    n = FN_ALIAS.get(n, n)
    if n.startswith("m.") and n[2:] in SHORT:
        return n[2:]
    if n.startswith("np.") and n[3:] in SHORT:
        return n[3:]
    return n


class Features:
    def __init__(self):
        self._path = {}
        self._alts = {}
        self._tok = {}
        self._bdd = {}
        self._anysig = {}
        self._filled = {}
        self._nums = {}

    # ------------------------------------------------------------------ paths
    def path(self, v):
        """Input path of v or None"""
        p = self._path.get(v)
        if p is None:
            p = self._path[v] = self._mkpath(v) or ""
        return p or None

    def _mkpath(self, v):
        k = v.k
        if k == "sym":
            return v.d
        if k == "attr":
            b = self.path(v.a[0])
            return b and b + "." + v.d
        if k == "item":
            b = self.path(v.a[0])
            if not b:
                return None
            if is_const(v.a[1]):
                return "%s[%r]" % (b, vv.cval(v.a[1]))
            if v.a[1].k == "idx" and self.own_key(v):
                return b
            return b + "[.]"
        if k == "elem":
            return self.path(v.a[0])
        if k == "idx":
            b = self.path(v.a[0])
            return b and b + "[#]"
        if k == "mod":
            return "mod:" + v.d
        if k == "cls":
            return "cls:" + v.d.name
        if k == "func":
            return "fn"
        if k == "op" and v.d in ("copy", "enter"):
            return self.path(v.a[0])
        if k == "mu":
            return self.path(v.a[0])
        return None

    def own_key(self, v):
        """item whose key runs over the container itself"""
        b, k = v.a
        if k.k not in ("elem", "idx"):
            return False
        if k.a[0] is b:
            return True
        p, q = self.path(k.a[0]), self.path(b)
        if p or q:
            return p == q
        return self.leaves(k.a[0]) == self.leaves(b)

    # ------------------------------------------------------------- leaf sets
    def alts(self, v):
        """alternatives: frozenset of leaf sets (conditions left out)"""
        r = self._alts.get(v)
        if r is None:
            self._alts[v] = frozenset([frozenset()])
            r = self._alts[v] = self._mkalts(v)
        return r

    def leaves(self, v):
        out = set()
        for s in self.alts(v):
            out |= s
        return frozenset(out)

    def _mkalts(self, v):
        k = v.k
        if k == "const":
            return frozenset([frozenset(["#%r" % (vv.cval(v),)])])
        if k in ("undef", "empty"):
            return frozenset([frozenset()])
        p = self.path(v)
        if p:
            s = {p}
            x = v
            while x.k in ("item", "attr", "elem", "idx", "op", "mu") and x.a:
                if x.k == "item" and not is_const(x.a[1]):
                    if not self.own_key(x):
                        s |= self.leaves(x.a[1])
                x = x.a[0]
            return frozenset([frozenset(s)])
        if k == "ite":
            if v.a[1] is UNDEF:
                return self.alts(v.a[2])
            if v.a[2] is UNDEF:
                return self.alts(v.a[1])
            out = set(self.alts(v.a[1])) | set(self.alts(v.a[2]))
            return self.cap(out)
        if k == "op" and v.d in ("fold", "agg", "comp"):
            u = set()
            for x in v.a:
                u |= self.leaves(x)
            return frozenset([frozenset(u)])
        args = v.a
        if k in ("new", "obj") and not args:
            return frozenset([frozenset(["new:%s" % (v.d[1].name,)] if k == "new" else [])])
        # union across operands of every combination
        acc = {frozenset()}
        ar = self.arith(v) and self.nums(v) is not None
        for x in args:
            if ar and x.k == "const":
                continue  # the value of the expression says it
            acc = {s | t for s in acc for t in self.alts(x)}
            if len(acc) > ALT_CAP:
                acc = {frozenset().union(*acc)}
        extra = set()
        if k == "op" and isinstance(v.d, str) and v.d.startswith("inst:"):
            extra = {"new:" + v.d[5:]}
        elif k == "call" and not args:
            extra = {callname(v.d[0]) + "()"}
        if extra:
            acc = {s | extra for s in acc}
        return frozenset(acc)

    def cap(self, s):
        if len(s) > ALT_CAP:
            return frozenset([frozenset().union(*s)])
        return frozenset(s)

    @staticmethod
    def ls(s):
        return "{" + ",".join(sorted(s)) + "}"

    # ---------------------------------------------------------------- tokens
    def toks(self, v):
        """tokens of this node alone"""
        t = self._tok.get(v)
        if t is None:
            t = self._tok[v] = self._mktoks(v)
        return t

    def combos(self, args):
        acc = [()]
        for x in args:
            acc = [s + (self.ls(t),) for s in acc for t in sorted(self.alts(x), key=sorted)]
            if len(acc) > ALT_CAP:
                acc = None
                break
        if acc is None:
            acc = [tuple(self.ls(self.leaves(x)) for x in args)]
        return acc

    def _mktoks(self, v):
        k = v.k
        if k == "op":
            d = v.d
            if d in STRUCT or d in ("and", "or", "not"):
                return ()
            if d.startswith("struct:") or d.startswith("inst:"):
                if d.startswith("inst:"):
                    return tuple(sorted(set("new:%s%s" % (d[5:], "|".join(c)) for c in self.combos(v.a))))
                return ()
            if d == "kv":
                return tuple(sorted(set("kv%s" % ("=".join(c)) for c in self.combos(v.a))))
            if d.startswith("fld:"):
                f = d[4:]
                if f == "[]" or f.startswith("[i:"):
                    return ()
                return tuple(sorted(set("fld %s=%s" % (f, c[0]) for c in self.combos(v.a) if c[0] != "{}")))
            if d.startswith("fn"):
                return ()
            if d in ("<", "=="):
                t = self.difference(v)
                if t is not None:
                    return t
            return tuple(sorted(set(self.fmt(d, c) for c in self.combos(v.a))))
        if k == "call":
            n, kws = v.d
            n = callname(n)
            npos = len(v.a) - len(kws)
            if n in ("list", "tuple", "iter", "m.items", "m.keys", "m.values", "enumerate", "zip") and npos >= 1:
                return ()
            out = set()
            for c in self.combos(v.a):
                c = list(c[:npos]) + ["%s=%s" % (kw, x) for kw, x in zip(kws, c[npos:])]
                out.add(self.fmt(n, c))
            return tuple(sorted(out))
        if k in ("attr", "item", "elem", "idx") and not self.path(v):
            if k == "attr":
                return tuple(sorted(set("attr:%s%s" % (v.d, c[0]) for c in self.combos(v.a[:1]))))
            if k == "item":
                if self.own_key(v):
                    return ()
                return tuple(sorted(set("item%s%s" % c for c in self.combos(v.a))))
            return ()
        if k == "tup":
            return ()
        return ()

    def difference(self, v):
        """a comparison of arithmetic expressions: by the value of their difference"""
        a, b = v.a
        if not (self.arith(a) or self.arith(b)):
            return None
        x, y = self.nums(a), self.nums(b)
        if x is None or y is None or len(x) * len(y) > NUM_CAP:
            return None
        out = set()
        for l1, p in x:
            for l2, q in y:
                h = (q - p) % P
                if v.d == "==":
                    h = min(h, P - h)
                out.add("%scalc%s=%x" % (v.d, self.ls(l1 | l2), h & 0xffffffff))
        return tuple(sorted(out))

    def fmt(self, d, c):
        c = list(c)
        if d in vv.COMM:
            c = sorted(c)
        return "%s%s" % (d, "|".join(c))

    # ----------------------------------------------------------------- atoms
    def lit(self, c):
        """(atom node, polarity)"""
        if c.k == "op" and c.d == "not":
            return c.a[0], False
        if c.k == "op" and c.d == "<=":
            return vv.mk("op", "<", c.a[1], c.a[0]), False
        return c, True

    def atomsig(self, a):
        if a.k == "op" and a.d == "exc":
            return "exc:" + str(vv.cval(a.a[0]))
        if a.k == "ite" or a.k == "op" and a.d in ("and", "or", "not"):
            # too large for a normal form: what it looks at
            return "cond" + self.ls(self.reach(a))
        r = self._anysig.get(a)
        if r is not None:
            return r
        if quantified(a):
            ds = any_dnf(self, a)
            if ds is not None:
                r = self._anysig[a] = "any(%s)" % " | ".join(sorted(" & ".join(sorted(self.litsig(c))) for c in ds))
                return r
            return "any" + self.ls(self.reach(a))
        if a.k == "op" and a.d == "truthy":
            x = a.a[0]
            if x.k == "call" or x.k == "op" and x.d not in STRUCT:
                a = x
        elif a.k == "op" and a.d in ("<", "==") and self.difference(a):
            t = self.difference(a)
            return "/".join(t) if len(t) < 4 else a.d + self.ls(self.leaves(a))
        elif a.k == "op" and a.d in ATOMS and any(self.head(x) for x in a.a):
            xs = [self.head(x) + self.ls(self.leaves(x)) for x in a.a]
            return self.fmt(a.d, xs)
        t = self.toks(a)
        if t:
            return "/".join(t) if len(t) < 4 else "%s%s" % (a.d if a.k == "op" else a.d[0], self.ls(self.leaves(a)))
        return self.ls(self.leaves(a))

    def head(self, x):
        """the operation that makes an operand of a condition"""
        if x.k == "call":
            n = callname(x.d[0])
            return "" if n in ("list", "tuple", "iter", "m.items", "m.keys", "m.values", "enumerate", "zip") else n
        if x.k == "op" and x.d in ARITH:
            return x.d
        return ""

    def reach(self, v):
        """every input in the graph, conditions included"""
        out, seen, stack = set(), set(), [v]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "const" or self.path(x):
                out |= self.leaves(x)
                continue
            stack.extend(x.a)
        return out

    def litsig(self, conj):
        out = []
        for x, pos in conj:
            t = self.atomsig(x)
            out.append(t if pos or t.startswith("cond{") else "not " + t)
        return sorted(set(out))

    def atomkey(self, a):
        r = 3
        if a.k == "op":
            r = {"truthy": 0, "<": 1, "==": 2, "isnone": 4}.get(a.d, 3)
        return (r, self.atomsig(a))

    def implied(self, a, val):
        """literals implied by atom a == val, as predicate(atom)->True/False/None"""
        if a.k != "op":
            return None

        def f(b):
            if b.k != "op":
                return None
            if a.d == "truthy":
                if val and b.d == "isnone" and b.a[0] is a.a[0]:
                    return False
            elif a.d == "isnone" and val:
                if b.d == "truthy" and b.a[0] is a.a[0]:
                    return False
                if b.d in ("==", "is") and a.a[0] in b.a and any(is_const(x) for x in b.a):
                    return False
            elif a.d == "<" and val:
                if b.d in ("<", "==") and set(b.a) == set(a.a):
                    return False
            elif a.d == "==" and val:
                if b.d == "<" and set(b.a) == set(a.a):
                    return False
                if b.d == "==" and any(is_const(x) for x in a.a) and any(is_const(x) for x in b.a):
                    xa = [x for x in a.a if not is_const(x)]
                    xb = [x for x in b.a if not is_const(x)]
                    if xa and xa == xb:
                        return False
                if b.d == "isnone" and b.a[0] in a.a and any(is_const(x) for x in a.a):
                    return False
            return None
        return f

    # ------------------------------------------------------------------- bdd
    def nest(self, v):
        """atoms and terminals of the maximal ite nest at v"""
        atoms, terms, seen = {}, {}, set()
        stack = [v]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "ite":
                a, _ = self.lit(x.a[0])
                atoms.setdefault(self.atomkey(a), a)
                stack.append(x.a[1])
                stack.append(x.a[2])
            else:
                terms[x] = 1
        return atoms, terms

    def bdd_tokens(self, v):
        r = self._bdd.get(v)
        if r is not None:
            return r
        atoms, terms = self.nest(v)
        out = set()
        order = sorted(atoms)
        if len(order) > ATOM_CAP:
            # too many conditions for the canonical tree: keep the syntactic one
            seen = set()
            stack = [v]
            while stack:
                x = stack.pop()
                if x.k != "ite" or x in seen:
                    continue
                seen.add(x)
                a, pos = self.lit(x.a[0])
                hi, lo = self.leaves(x.a[1]), self.leaves(x.a[2])
                out.add("cond " + self.atomsig(a))
                stack.extend(x.a[1:])
            r = self._bdd[v] = frozenset(out)
            return r
        keyof = {}

        def restrict(x, key, atom, val, imp, memo):
            if x.k != "ite":
                if val and atom.k == "op" and atom.d == "isnone" and atom.a[0] is x:
                    return vv.NONE
                return x
            if x in memo:
                return memo[x]
            a, pos = self.lit(x.a[0])
            ak = self.atomkey(a)
            b = None
            if ak == key:
                b = val
            elif imp is not None:
                b = imp(a)
            if b is not None:
                r = restrict(x.a[1] if b == pos else x.a[2], key, atom, val, imp, memo)
            else:
                hi = restrict(x.a[1], key, atom, val, imp, memo)
                lo = restrict(x.a[2], key, atom, val, imp, memo)
                r = x if hi is x.a[1] and lo is x.a[2] else (
                    hi if hi is lo else vv.mk("ite", None, x.a[0], hi, lo))
            memo[x] = r
            return r

        nones = {}
        for i, key in enumerate(order):
            a = atoms[key]
            if a.k == "op" and a.d == "isnone":
                nones[a.a[0]] = (i, key)
        memo = {}

        def build(x, i):
            """terminal leaves of canonical tree; returns node id"""
            if x.k != "ite":
                if x in nones and i <= nones[x][0]:
                    return ("n", nones[x][1], ("t", self.termkey(vv.NONE)), ("t", self.termkey(x)))
                return ("t", self.termkey(x))
            kk = (x, i)
            if kk in memo:
                return memo[kk]
            if len(memo) > 4000:
                raise OverflowError
            key = order[i]
            a = atoms[key]
            hi = build(restrict(x, key, a, True, self.implied(a, True), {}), i + 1) if True else None
            lo = build(restrict(x, key, a, False, self.implied(a, False), {}), i + 1)
            r = hi if hi == lo else ("n", key, hi, lo)
            memo[kk] = r
            return r

        try:
            root = build(v, 0)
        except (OverflowError, IndexError, RecursionError):
            for key in order:
                out.add("cond " + key[1])
            r = self._bdd[v] = frozenset(out)
            return r
        seen = set()

        tl = {}

        def tleaves(n):
            if n[0] == "t":
                return n[1][0]
            if n not in tl:
                tl[n] = tleaves(n[2]) | tleaves(n[3])
            return tl[n]

        tt = {}

        def tterms(n):
            if n[0] == "t":
                return frozenset([n[1][1]])
            if n not in tt:
                tt[n] = tterms(n[2]) | tterms(n[3])
            return tt[n]

        def short(x):
            return " ; ".join(sorted(" ".join(y) or "-" for y in x))

        def emit(n):
            if n[0] == "t" or n in seen:
                return
            seen.add(n)
            h, l = tleaves(n[2]), tleaves(n[3])
            d1, d2 = h - l, l - h
            s = "if %s +%s -%s" % (n[1][1], self.ls(d1), self.ls(d2))
            if not d1 and not d2:
                th, tl_ = tterms(n[2]), tterms(n[3])
                s += " ~ " + short(th - tl_) + " ! " + short(tl_ - th)
            if not s.endswith(" +{} -{} ~  ! "):
                out.add(s)
            emit(n[2])
            emit(n[3])
        emit(root)
        r = self._bdd[v] = frozenset(out)
        return r

    def termkey(self, x):
        """identity of a terminal: its leaves and its own tokens"""
        return (self.leaves(x), tuple(sorted(self.deeptoks(x))))

    def deeptoks(self, x, d=0):
        t = set(self.toks(x))
        if d < 5 and x.k == "op" and (x.d in ("kv", "agg", "comp", "copy", "fold") or x.d.startswith("fld:")
                                      or x.d.startswith("struct:")) or x.k == "tup" and d < 5:
            for y in x.a[1:] if x.k == "op" and x.d in ("agg", "fold") else x.a:
                if y.k != "ite":
                    t |= self.deeptoks(y, d + 1)
        return t

    # ------------------------------------------------------------------ whole
    def features(self, v, conds=True):
        """all tokens in the graph of v"""
        out = set()
        seen = set()
        stack = [(v, False, False)]
        innest = set()
        while stack:
            x, incond, ar = stack.pop()
            if not incond and vv.is_bool(x) and x.k != "const" and (x, 1) not in seen:
                seen.add((x, 1))
                out |= self.bool_tokens(x)
                incond = True
            if (x, ar) in seen:
                continue
            seen.add((x, ar))
            if x.k == "ite" and incond and vv.is_bool(x):
                stack.extend((y, True, False) for y in x.a)
                continue
            if not incond and self.filled(x):
                items = contents(x)
                if items is not None:
                    sigs = {}
                    for y, c in items.items():
                        sigs.setdefault(self.itemsig(y), []).append(c)
                        stack.append((y, False, False))
                        stack.append((c, True, False))
                    for g, cs in sigs.items():
                        cs = [c for c in cs if c is not TRUE]
                        conjs = guard_dnf(self, [vv.mk_or(*cs)] if cs else [])
                        if any(l.startswith("cond{") for c in conjs for l in c):
                            conjs = [x for c in cs for x in guard_dnf(self, [c])]
                        for conj in conjs:
                            if conj:
                                out.add("item %s when %s" % (g, " & ".join(sorted(conj))))
                    continue
            if x.k == "ite":
                if x not in innest:
                    out |= self.bdd_tokens(x)
                    # mark nest members
                    st = [x]
                    while st:
                        y = st.pop()
                        if y.k == "ite" and y not in innest:
                            innest.add(y)
                            st.extend(y.a[1:])
                stack.append((x.a[0], True, False))
                stack.append((x.a[1], False, ar))
                stack.append((x.a[2], False, ar))
                continue
            if x.k == "const":
                if incond and x.d[0] == "bool" or ar and x.d[0] in ("int", "float", "bool"):
                    continue
                out.add("leaf #%r" % (vv.cval(x),))
                continue
            p = self.path(x)
            if p and x.k != "func":
                for l in self.leaves(x):
                    out.add("leaf " + l)
                # keys
                y = x
                while y.a:
                    if y.k == "item" and not is_const(y.a[1]):
                        stack.append((y.a[1], False, False))
                    y = y.a[0]
                continue
            if self.arith(x):
                calc = () if ar else self.calc_tokens(x)
                if calc is not None:
                    out.update(calc)
                    stack.extend((y, False, True) for y in x.a)
                    continue
            out.update(self.toks(x))
            sub = incond and (x.k == "op" and x.d in ("and", "or", "not", "comp") or quantified(x))
            for y in x.a:
                stack.append((y, sub, False))
        return out

    def itemsig(self, y):
        if y.k == "idx" and not self.path(y):
            return "position in " + self.ls(self.leaves(y))
        return self.head(y) + self.ls(self.leaves(y))

    def filled(self, v):
        """a container filled step by step"""
        r = self._filled.get(v)
        if r is None:
            self._filled[v] = False
            if v.k == "op" and v.d == "agg":
                r = v.a[0] is EMPTY or self.filled(v.a[0])
            elif v.k == "op" and v.d == "comp":
                r = True
            elif v.k == "ite":
                r = all(x is EMPTY or self.filled(x) for x in v.a[1:])
            else:
                r = False
            self._filled[v] = r
        return r

    # ------------------------------------------------------------ arithmetic
    def arith(self, v):
        """a ring expression over its operands"""
        if v.k != "op" or v.d not in RING:
            return False
        if v.d == "**":
            e = v.a[1]
            return is_const(e) and e.d[0] == "int" and 0 <= e.d[1] <= 8
        return not any(x.k in ("obj", "tup") or x.k == "const" and x.d[0] not in ("int", "float", "bool")
                       or x.k == "op" and (x.d in ("comp", "agg", "fmt") or x.d.startswith("struct:")) for x in v.a)

    def nums(self, v):
        """alternatives of v as {(inputs, value at a fixed point of a prime field)}: equal for
        expressions that are equal by the laws of arithmetic.  None: too many alternatives"""
        if v in self._nums:
            return self._nums[v]
        self._nums[v] = None
        r = self._mknums(v)
        if r is not None and len(r) > NUM_CAP:
            r = None
        self._nums[v] = r
        return r

    def _mknums(self, v):
        k = v.k
        if k == "const" and v.d[0] in ("int", "float", "bool"):
            try:
                f = Fraction(repr(float(v.d[1]))) if v.d[0] == "float" else Fraction(int(v.d[1]))
                return frozenset([(frozenset(), f.numerator * pow(f.denominator, -1, P) % P)])
            except (ValueError, OverflowError):
                pass
        if k == "ite" and not vv.is_bool(v):
            if v.a[1] is UNDEF:
                return self.nums(v.a[2])
            if v.a[2] is UNDEF:
                return self.nums(v.a[1])
            a, b = self.nums(v.a[1]), self.nums(v.a[2])
            return None if a is None or b is None else a | b
        scalar = k == "call" and not v.d[1] and callname(v.d[0]) in SCALAR
        if self.arith(v) or scalar:
            acc = [(frozenset(), ())]
            for x in v.a:
                n = self.nums(x)
                if n is None:
                    return None
                acc = [(l | l2, vals + (y,)) for l, vals in acc for l2, y in sorted(n, key=lambda t: (sorted(t[0]), t[1]))]
                if len(acc) > NUM_CAP:
                    return None
            return frozenset((l, self.ring(callname(v.d[0]) if scalar else v.d, vals)) for l, vals in acc)
        if self.path(v):
            h = "path"
        elif k == "item":
            h = "item:" + ",".join(sorted(self.leaves(v.a[1])))
        elif k in ("attr",):
            h = "attr:" + v.d
        elif k == "call":
            h = callname(v.d[0])
        elif k == "op":
            h = v.d if v.d not in STRUCT and not v.d.startswith(("struct:", "fld:")) else "x"
        else:
            h = "x"
        return frozenset([(l, number(h, *sorted(l))) for l in self.alts(v)])

    def ring(self, d, vals):
        if d == "+":
            return sum(vals) % P
        if d == "-":
            return (vals[0] - sum(vals[1:])) % P
        if d == "neg":
            return -vals[0] % P
        if d == "*":
            r = 1
            for x in vals:
                r = r * x % P
            return r
        if d == "/" and vals[1]:
            return vals[0] * pow(vals[1], -1, P) % P
        if d == "**":
            return pow(vals[0], vals[1], P)
        return number(d, *map(str, sorted(vals) if d in ("min", "max") else vals))

    def calc_tokens(self, v):
        n = self.nums(v)
        if n is None:
            return None
        return {"calc%s=%x" % (self.ls(l), y & 0xffffffff) for l, y in n}

    def bool_tokens(self, x):
        """a truth value used as data: the canonical tree of its conditions"""
        def nest(b, hi, lo):
            if b is TRUE:
                return hi
            if b is FALSE:
                return lo
            if b.k == "op" and b.d == "not":
                return nest(b.a[0], lo, hi)
            if b.k == "op" and b.d in ("and", "or"):
                r = hi if b.d == "and" else lo
                for y in reversed(b.a):
                    r = nest(y, r, lo) if b.d == "and" else nest(y, hi, r)
                return r
            if b.k == "ite":
                return nest(b.a[0], nest(b.a[1], hi, lo), nest(b.a[2], hi, lo))
            return hi if hi is lo else vv.mk("ite", None, b, hi, lo)
        return self.bdd_tokens(nest(x, TRUE, FALSE))


def number(*xs):
    return int.from_bytes(hashlib.blake2b("\0".join(xs).encode(), digest_size=8).digest(), "big") % P


def contents(v, memo=None):
    """{item: condition under which it is in the container}"""
    if memo is None:
        memo = {}
    if v in memo:
        return memo[v]
    r = {}

    def add(y, c):
        if c is FALSE or y is UNDEF:
            return
        if y.k == "ite" and UNDEF in y.a[1:]:
            add(y.a[1], vv.mk_and(c, y.a[0]))
            add(y.a[2], vv.mk_and(c, vv.mk_not(y.a[0])))
            return
        r[y] = vv.mk_or(r[y], c) if y in r else c
    if v.k == "op" and v.d == "agg":
        sub = contents(v.a[0], memo)
        if sub is None:
            return None
        r.update(sub)
        for y in v.a[1:]:
            add(y, TRUE)
    elif v.k == "op" and v.d == "comp":
        for y in v.a:
            add(y, TRUE)
    elif v.k == "ite":
        a, b = contents(v.a[1], memo), contents(v.a[2], memo)
        if a is None or b is None:
            return None
        for y in {**a, **b}:
            ca, cb = a.get(y, FALSE), b.get(y, FALSE)
            r[y] = ca if ca is cb else vv.mk_ite(v.a[0], ca, cb)
    if len(r) > 80:
        r = None
    memo[v] = r
    return r


def quantified(g):
    """any/all over the rounds of one loop"""
    return g.k == "call" and g.d[0] in ("any", "all") and len(g.a) == 1 and g.a[0].k == "op" \
        and g.a[0].d == "comp" and len(g.a[0].a) == 1


def any_dnf(F, g):
    """disjuncts of the body of an any(); for all(x), of not x"""
    b = g.a[0].a[0]
    ds = _dnf(F, b, g.d[0] == "any", 96)
    if ds is None:
        return None
    return clean(F, ds)


def clean(F, ds):
    out = set()
    for c in ds:
        c = simplify(F, c)
        if c is not None:
            out.add(frozenset(c))
    return blake(F, out)


def absorb(cs):
    return {c for c in cs if not any(o < c for o in cs)}


def blake(F, cs, limit=120):
    """the set of prime implicants, which does not depend on how the condition was written"""
    cs = absorb(set(cs))
    if len(cs) > 60:
        return list(cs)
    done = set()
    work = True
    while work:
        work = False
        lst = sorted(cs, key=lambda c: sorted((a.n, p) for a, p in c))
        for i, c in enumerate(lst):
            for d in lst[i + 1:]:
                if (c, d) in done:
                    continue
                done.add((c, d))
                opp = [(a, p) for a, p in c if (a, not p) in d]
                if len(opp) != 1:
                    continue
                a, p = opp[0]
                n = (c - {(a, p)}) | (d - {(a, not p)})
                n = simplify(F, n)
                if n is None:
                    continue
                n = frozenset(n)
                if any(o <= n for o in cs):
                    continue
                cs.add(n)
                work = True
        cs = absorb(cs)
        if len(cs) > limit or len(done) > 4000:
            break
    return list(cs)


def conj_node(c):
    xs = [a if pos else vv.mk("op", "not", a) for a, pos in sorted(c, key=lambda x: x[0].n)]
    b = xs[0] if len(xs) == 1 else vv.mk("op", "and", *xs)
    return vv.mk("call", ("any", ()), vv.mk("op", "comp", b))


def guard_dnf(F, guards, cap=48):
    """DNF of a conjunction of guard conditions: list of frozensets of literal strings"""
    conj = [frozenset()]
    for g in guards:
        ds = _dnf(F, g, True, cap)
        if ds is None:
            ds = [frozenset([(g, True)])]
        new = []
        for c in conj:
            for d in ds:
                new.append(c | d)
        if len(new) > cap:
            new = [c | frozenset([(g, True)]) for c in conj]
        conj = new
    return [frozenset(F.litsig(c)) for c in clean(F, conj)]


def simplify(F, c):
    lits = {}
    for a, pos in c:
        a2, p2 = F.lit(a)
        pos = pos == p2
        if lits.get(a2, pos) != pos:
            return None
        lits[a2] = pos
    for a, pos in list(lits.items()):
        f = F.implied(a, pos)
        if f is None:
            continue
        for b in list(lits):
            if b is a or b not in lits:
                continue
            v = f(b)
            if v is None:
                continue
            if v == lits[b]:
                del lits[b]
            else:
                return None
    return list(lits.items())


def _dnf(F, g, pos, cap):
    if g is TRUE or g is FALSE:
        val = (g is TRUE) == pos
        return [frozenset()] if val else []
    if g.k == "op" and g.d == "not":
        return _dnf(F, g.a[0], not pos, cap)
    if quantified(g):
        ds = any_dnf(F, g)
        if ds is None:
            return [frozenset([(g, pos)])]
        if g.d[0] == "all":
            pos = not pos
        if not ds:
            return [] if pos else [frozenset()]
        if any(not c for c in ds):
            return [frozenset([(g, pos == (g.d[0] == "any"))])]
        if pos:
            return [frozenset([(conj_node(c), True)]) for c in ds]
        return [frozenset((conj_node(c), False) for c in ds)]
    if g.k == "op" and g.d in ("and", "or"):
        conj = (g.d == "and") == pos
        parts = [_dnf(F, x, pos, cap) for x in g.a]
        if any(p is None for p in parts):
            return None
        if conj:
            acc = [frozenset()]
            for p in parts:
                acc = [s | t for s in acc for t in p]
                if len(acc) > cap:
                    return None
            return acc
        acc = [s for p in parts for s in p]
        return acc if len(acc) <= cap else None
    if g.k == "ite":
        c, a, b = g.a
        if not (vv.is_bool(a) and vv.is_bool(b)):
            return [frozenset([(g, pos)])]
        t1 = _dnf(F, c, True, cap)
        t2 = _dnf(F, a, pos, cap)
        e1 = _dnf(F, c, False, cap)
        e2 = _dnf(F, b, pos, cap)
        if None in (t1, t2, e1, e2):
            return None
        acc = [s | t for s in t1 for t in t2] + [s | t for s in e1 for t in e2]
        return acc if len(acc) <= cap else None
    return [frozenset([(g, pos)])]
