"""Hash-consed abstract values (gated value graph)."""
import hashlib


class V:
    __slots__ = ("k", "d", "a", "n", "_leaf", "_feat", "_sig", "_path")

    def __init__(self, k, d, a, n):
        self.k, self.d, self.a, self.n = k, d, a, n
        self._leaf = self._feat = self._sig = self._path = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.n


_table = {}
_counter = [0]


def reset():
    _truth.clear()
    _loopy.clear()
    _ite.clear()
    _table.clear()
    _counter[0] = 0
    for i, (key, v) in enumerate(_core):
        v._leaf = v._feat = v._sig = v._path = None
        _table[key] = v


def uid():
    _counter[0] += 1
    return _counter[0]


def mk(k, d=None, *a):
    key = (k, d, a)
    v = _table.get(key)
    if v is None:
        v = V(k, d, a, len(_table))
        _table[key] = v
    return v


def plain(x, memo):
    """an attribute of a node, without addresses"""
    if isinstance(x, V):
        return digest(x, memo)
    if isinstance(x, tuple):
        return "(" + ",".join(plain(y, memo) for y in x) + ")"
    if x is None or isinstance(x, (str, bool, int, float, bytes)):
        return repr(x)
    return getattr(x, "qual", None) or type(x).__name__


def choice(v, memo):
    """digest parts of a conditional; conditions tested one after the other for the same outcome have no order"""
    c, hi, lo = v.a
    dh, dl = digest(hi, memo), digest(lo, memo)
    cs = {digest(c, memo)}
    if hi.k == "ite" and dl in (digest(hi.a[1], memo), digest(hi.a[2], memo)):
        while hi.k == "ite" and dl in (digest(hi.a[1], memo), digest(hi.a[2], memo)):
            neg = dl == digest(hi.a[1], memo)
            cs.add(("!" if neg else "") + digest(hi.a[0], memo))
            hi = hi.a[2] if neg else hi.a[1]
        return ["|".join(sorted(x[1:] if x[0] == "!" else "!" + x for x in cs)), dl, digest(hi, memo)]
    while lo.k == "ite" and dh in (digest(lo.a[1], memo), digest(lo.a[2], memo)):
        neg = dh == digest(lo.a[2], memo)
        cs.add(("!" if neg else "") + digest(lo.a[0], memo))
        lo = lo.a[1] if neg else lo.a[2]
    return ["|".join(sorted(cs)), dh, digest(lo, memo)]


def digest(v, memo):
    """text-independent name of a value: its whole structure, order of operands aside where it does not matter"""
    r = memo.get(v.n)
    if r is None:
        if v.k == "const":
            d = repr(v.d)
        elif v.k == "mu":
            d = ""
        elif isinstance(v.d, tuple):
            d = ",".join(plain(x, memo) for x in v.d if not isinstance(x, int))
        else:
            d = plain(v.d, memo)
        if v.k == "ite":
            a = choice(v, memo)
        else:
            a = [digest(x, memo) for x in v.a]
        if v.k == "op" and v.d in COMM:
            a.sort()
        r = memo[v.n] = hashlib.sha1(("%s|%s|%s" % (v.k, d, ",".join(a))).encode()).hexdigest()[:12]
    return r


def const(x):
    if x is None or isinstance(x, (bool, str, bytes, int, float, complex)) or x is Ellipsis:
        return mk("const", (type(x).__name__, repr(x) if isinstance(x, float) else x))
    raise TypeError(x)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")
EMPTY = mk("empty")
HAVOC = mk("sym", "?")


_core = list(_table.items())


def is_const(v):
    return v.k == "const"


def cval(v):
    t, x = v.d
    return float(x) if t == "float" else x


COMM = {"+", "*", "==", "&", "|", "^", "min", "max", "and", "or", "union"}


def op(name, *args):
    # --- algebraic normalisation -------------------------------------------
    if name in (">", ">="):
        return op("<" if name == ">" else "<=", args[1], args[0])
    if name == "!=":
        return mk_not(op("==", *args))
    if name == "is not":
        return mk_not(op("is", *args))
    if name == "not in":
        return mk_not(op("in", *args))
    if name in ("is", "=="):
        a, b = args
        if is_bool(a) and is_bool(b) and not is_const(a) and not is_const(b):
            return mk_ite(a, b, mk_not(b))
        if a.k == "ite" and is_const(b) or b.k == "ite" and is_const(a):
            x, y = (a, b) if a.k == "ite" else (b, a)
            ls = ite_leaves(x)
            if ls is not None and 2 * sum(is_const(l) for l in ls) >= len(ls):
                return _spread_eq(x, y)
        if is_const(a) and is_const(b):
            if name == "==" or a.d[0] in ("NoneType", "bool") or b.d[0] in ("NoneType", "bool"):
                return TRUE if (a is b or (name == "==" and cval(a) == cval(b))) else FALSE
        if a is NONE:
            a, b = b, a
        if b is NONE:
            if a.k in ("obj", "new", "func", "cls", "tup") or (
                    a.k == "op" and (a.d in ("comp", "agg", "fmt", "+", "-", "*", "/", "mod") or
                                     a.d.startswith(("struct:", "inst:")))):
                return FALSE
            return mk("op", "isnone", a)
        if name == "is":
            name = "=="
            if b.k == "const" and b.d[0] == "bool":
                name = "is"
                return mk("op", "is", a, b)
        # len(x) == 0  ->  not truthy(x)
        for x, y in ((a, b), (b, a)):
            if y.k == "const" and y.d == ("int", 0) and x.k == "call" and x.d[0] == "len":
                return mk_not(mk("op", "truthy", x.a[0]))
    if name in ("<", "<="):
        a, b = args
        for x, y, lo in ((a, b, True), (b, a, False)):
            # min(p, q) < y  is  p < y or q < y;   y < min(p, q)  is  both
            if x.k == "op" and x.d in ("min", "max") and len(x.a) <= 3 and y.k == "const":
                cs = [op(name, z, y) if lo else op(name, y, z) for z in x.a]
                return (mk_or if (x.d == "min") == lo else mk_and)(*cs)
        ln = lambda v: v.k == "call" and v.d[0] == "len"
        if ln(b) and a.k == "const":
            if (name == "<" and a.d == ("int", 0)) or (name == "<=" and a.d == ("int", 1)):
                return mk("op", "truthy", b.a[0])
        if ln(a) and b.k == "const":
            if (name == "<" and b.d == ("int", 1)) or (name == "<=" and b.d == ("int", 0)):
                return mk_not(mk("op", "truthy", a.a[0]))
        # one form for the length against a whole number: k < len(x), and its negation
        if ln(b) and a.k == "const" and a.d[0] == "int" and name == "<=":
            return mk("op", "<", const(a.d[1] - 1), b)
        if ln(a) and b.k == "const" and b.d[0] == "int" and name == "<":
            return mk("op", "<=", a, const(b.d[1] - 1))
    if name in ("+", "*", "min", "max", "|", "&", "union"):
        flat = []
        for x in args:
            if x.k == "op" and x.d == name:
                flat.extend(x.a)
            else:
                flat.append(x)
        if name == "+" and any(x.k == "const" and x.d[0] == "str" for x in flat):
            return mk_fmt(flat)
        if name == "+" and any(x.k == "op" and x.d == "fmt" for x in flat):
            return mk_fmt(flat)
        if name == "+" and any(x.k == "obj" for x in flat):
            return mk("op", name, *flat)
        flat.sort(key=lambda v: v.n)
        return mk("op", name, *flat)
    if name == "==":
        args = tuple(sorted(args, key=lambda v: v.n))
    return mk("op", name, *args)


def mk_fmt(parts):
    """text put together from pieces, however it was written"""
    out = []

    def add(x):
        if x.k == "op" and x.d == "fmt":
            for y in x.a:
                add(y)
            return
        if x.k == "call" and x.d[0] == "str" and len(x.a) == 1:
            x = x.a[0]
        if x.k == "const" and x.d[0] in ("str", "int"):
            x = const(str(cval(x)))
            if not cval(x):
                return
            if out and out[-1].k == "const":
                out[-1] = const(cval(out[-1]) + cval(x))
                return
        out.append(x)
    for x in parts:
        add(x)
    if not out:
        return const("")
    if len(out) == 1 and out[0].k == "const":
        return out[0]
    return mk("op", "fmt", *out)


def ite_leaves(v, cap=16):
    out, seen, stack = set(), set(), [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 3 * cap:
            return None
        if x.k == "ite":
            stack.extend(x.a[1:])
        elif x is not UNDEF:
            out.add(x)
            if len(out) > cap:
                return None
    return out


def _spread_eq(x, y):
    if x.k == "ite":
        return mk_ite(x.a[0], _spread_eq(x.a[1], y), _spread_eq(x.a[2], y))
    if x is UNDEF:
        return FALSE
    return op("==", x, y)


def mk_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.k == "op" and c.d == "not":
        return c.a[0]
    if c.k == "op" and c.d == "and":
        return mk_or(*[mk_not(x) for x in c.a])
    if c.k == "op" and c.d == "or":
        return mk_and(*[mk_not(x) for x in c.a])
    if c.k == "op" and c.d == "<":
        return mk("op", "<=", c.a[1], c.a[0])
    if c.k == "op" and c.d == "<=" :
        return mk("op", "<", c.a[1], c.a[0])
    if c.k == "ite" and is_bool(c):
        return mk_ite(c.a[0], mk_not(c.a[1]), mk_not(c.a[2]))
    return mk("op", "not", c)


def mk_and(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.a if c.k == "op" and c.d == "and" else (c,)):
            if x not in out:
                out.append(x)
    out = absorb(out, False)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("op", "and", *out)


def absorb(cs, neg):
    """in a conjunction, truthy(x) makes 'x is not None' and 'x != 0' redundant, and x == 'a'
    makes x != 'b' and 'x is not None' redundant; dually"""
    ts, eqs = set(), set()
    for c in cs:
        if neg and c.k == "op" and c.d == "not":
            c = c.a[0]
        elif neg:
            continue
        if c.k == "op" and c.d == "truthy":
            ts.add(c.a[0])
        elif c.k == "op" and c.d == "==" and len(c.a) == 2:
            for y, z in (c.a, c.a[::-1]):
                if z.k == "const" and y.k != "const":
                    eqs.add((y, z))
    if not ts and not eqs:
        return cs
    ev = {y for y, z in eqs}
    out = []
    for c in cs:
        x = c
        if not neg:
            if not (c.k == "op" and c.d == "not"):
                out.append(c)
                continue
            x = c.a[0]
        if x.k == "op" and (x.d == "isnone" and (x.a[0] in ts or x.a[0] in ev) or x.d == "==" and any(
                z.k == "const" and (y in ts and not cval(z) or y in ev and (y, z) not in eqs)
                for y, z in (x.a, x.a[::-1]))):
            continue
        out.append(c)
    return out


def mk_or(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in (c.a if c.k == "op" and c.d == "or" else (c,)):
            if x not in out:
                out.append(x)
    out = absorb(out, True)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("op", "or", *out)


BOOLOPS = {"<", "<=", "==", "isnone", "is", "in", "not", "and", "or", "truthy",
           "isinstance", "exc", "hasattr", "brk", "loopc"}


def is_bool(v):
    if v.k == "const":
        return v.d[0] == "bool"
    if v.k == "op":
        return v.d in BOOLOPS
    if v.k == "ite":
        return is_bool(v.a[1]) and is_bool(v.a[2])
    if v.k == "call":
        return v.d[0] in ("isinstance", "issubclass", "hasattr", "callable", "any", "all")
    return False


_truth = {}


def truth(v):
    """Boolean condition for python truthiness of v."""
    r = _truth.get(v)
    if r is None:
        r = _truth[v] = _mktruth(v)
    return r


def _mktruth(v):
    if v.k == "const":
        return TRUE if cval(v) else FALSE
    if is_bool(v):
        return v
    if v.k == "ite":
        return mk_ite(v.a[0], truth(v.a[1]), truth(v.a[2]))
    if v.k in ("func", "cls", "mod"):
        return TRUE
    if v.k == "tup":
        return TRUE if v.a else FALSE
    if v.k == "call" and v.d[0] == "len":
        return mk("op", "truthy", v.a[0])
    if v.k == "op" and v.d in ("+", "-", "*", "/", "//") and not any(
            x.k in ("obj", "tup") or x.k == "const" and x.d[0] not in ("int", "float") or
            x.k == "op" and x.d in ("comp", "agg", "fmt") for x in v.a):
        return mk_not(op("==", v, const(0)))
    if v.k == "call" and v.d[0] == "bool" and len(v.a) == 1:
        return truth(v.a[0])
    if v.k == "op" and v.d in ("struct:list", "struct:set") and len(v.a) == 1 and v.a[0].d == "fld:[]":
        r = nonempty(v.a[0].a[0])
        if r is not None:
            return r
    if v.k == "op" and v.d == "comp" and len(v.a) == 1:
        r = nonempty(mk("op", "agg", EMPTY, v.a[0]))
        if r is not None:
            return r
    return mk("op", "truthy", v)


def mk_any(c):
    """some round of a loop satisfies c"""
    if c is TRUE or c is FALSE:
        return c
    pos = True
    if c.k == "op" and c.d == "not":
        c, pos = c.a[0], False
    elif c.k == "op" and c.d == "<=":
        c, pos = mk("op", "<", c.a[1], c.a[0]), False
    if pos:
        return mk("call", ("any", ()), mk("op", "comp", c))
    return mk_not(mk("call", ("all", ()), mk("op", "comp", c)))


def defined(v):
    """condition under which a gated value is there"""
    if v is UNDEF:
        return FALSE
    if v.k == "ite":
        a, b = defined(v.a[1]), defined(v.a[2])
        if a is TRUE and b is TRUE:
            return TRUE
        return mk_ite(v.a[0], a, b)
    return TRUE


_loopy = {}


def loopy(v):
    """depends on the round of a loop"""
    r = _loopy.get(v)
    if r is None:
        _loopy[v] = False
        r = _loopy[v] = v.k in ("elem", "idx", "mu") or any(loopy(x) for x in v.a)
    return r


def nonempty(c, depth=0):
    """condition under which collected content is not empty, or None"""
    if c is EMPTY:
        return FALSE
    if depth > 40:
        return None
    if c.k == "ite":
        a, b = nonempty(c.a[1], depth + 1), nonempty(c.a[2], depth + 1)
        if a is None or b is None:
            return None
        return mk_ite(c.a[0], a, b)
    if c.k == "op" and c.d == "agg" and len(c.a) == 2:
        r = nonempty(c.a[0], depth + 1)
        if r is None:
            return None
        x = c.a[1]
        d = defined(x)
        if d is TRUE:
            if not loopy(x):
                return TRUE
            return None
        if loopy(d):
            d = mk_any(d)
        elif loopy(x):
            return None
        return mk_or(r, d)
    return None


def excludes(c, g):
    """c and g compare the same thing with different constants"""
    if not (c.k == "op" == g.k and c.d == "==" == g.d and len(c.a) == 2 == len(g.a)):
        return False
    for x, k in (c.a, c.a[::-1]):
        if k.k == "const" and x.k != "const":
            for y, m in (g.a, g.a[::-1]):
                if y is x and m.k == "const" and m is not k and type(cval(m)) is type(cval(k)) and cval(m) != cval(k):
                    return True
    return False


def _restrict(v, c, val, depth=6):
    """Shallow cofactor of a gated value."""
    if v.k != "ite" or depth == 0:
        return v
    g, a, b = v.a
    if g is c:
        return _restrict(a if val else b, c, val, depth - 1)
    if val and excludes(c, g):
        return _restrict(b, c, val, depth - 1)
    ra = _restrict(a, c, val, depth - 1)
    rb = _restrict(b, c, val, depth - 1)
    if ra is a and rb is b:
        return v
    return ra if ra is rb else mk("ite", None, g, ra, rb)


_ite = {}


def mk_ite(c, a, b):
    if a is b:
        return a
    key = (c, a, b)
    r = _ite.get(key)
    if r is None:
        r = _ite[key] = _mk_ite(c, a, b)
    return r


def _mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.k == "op":
        if c.d == "not":
            return mk_ite(c.a[0], b, a)
        if c.d == "<=":  # keep one polarity: a<=b  ==  not (b<a)
            return mk_ite(mk("op", "<", c.a[1], c.a[0]), b, a)
        if c.d == "and":
            r = a
            for x in reversed(c.a):
                r = mk_ite(x, r, b)
            return r
        if c.d == "or":
            r = b
            for x in reversed(c.a):
                r = mk_ite(x, a, r)
            return r
    if c.k == "ite":
        g, p, q = c.a
        return mk_ite(g, mk_ite(p, a, b), mk_ite(q, a, b))
    a = _restrict(a, c, True)
    b = _restrict(b, c, False)
    if is_bool(c):
        if a is c:
            a = TRUE
        if b is c:
            b = FALSE
        n = mk_not(c)
        if a is n:
            a = FALSE
        if b is n:
            b = TRUE
    if c.k == "op" and c.d == "isnone" and a is c.a[0]:
        a = NONE
    if a is b:
        return a
    if a is TRUE and b is FALSE and is_bool(c):
        return c
    if a is FALSE and b is TRUE and is_bool(c):
        return mk_not(c)
    if is_bool(c):
        if b is FALSE and is_bool(a):
            return mk_and(c, a)
        if a is TRUE and is_bool(b):
            return mk_or(c, b)
        if a is FALSE and is_bool(b):
            return mk_and(mk_not(c), b)
        if b is TRUE and is_bool(a):
            return mk_or(mk_not(c), a)
    if a.k == "op" and b.k == "op" and a.d == b.d and a.d == "agg" and a.a[0] is b.a[0] and len(a.a) == 2 == len(b.a):
        return mk("op", a.d, a.a[0], mk_ite(c, a.a[1], b.a[1]))
    if a.k == "op" and a.d == "agg" and a.a[0] is b and len(a.a) == 2:
        return mk("op", "agg", b, mk_ite(c, a.a[1], UNDEF))
    if b.k == "op" and b.d == "agg" and b.a[0] is a and len(b.a) == 2:
        return mk("op", "agg", a, mk_ite(c, UNDEF, b.a[1]))
    if a.k == "op" and a.d == "agg" or b.k == "op" and b.d == "agg":
        r = _mk_chain(c, a, b)
        if r is not None:
            return r
    ka, kb = _kv(a), _kv(b)
    if ka and kb and ka[1] is not None and ka[1] is kb[1] and ka[2] is not kb[2]:
        g = mk_ite(c, ka[0], kb[0])
        return mk_ite(g, mk("op", "kv", ka[1], mk_ite(c, ka[2], kb[2])), UNDEF)
    if c.k == "op" and c.d == "<":
        x, y = c.a
        if a is x and b is y:
            return op("min", x, y)
        if a is y and b is x:
            return op("max", x, y)
        if y.k == "call" and y.d[0] == "len" and x.k == "const" and x.d[0] == "int":
            k = const(x.d[1] + 1)
            if a is y and b is k:
                return op("max", k, y)
            if a is k and b is y:
                return op("min", k, y)
    return mk("ite", None, c, a, b)


def _kv(v):
    """an entry of a dictionary that may be missing: (condition, key, value)"""
    if v is UNDEF:
        return FALSE, None, None
    g = TRUE
    n = 0
    while v.k == "ite" and UNDEF in v.a[1:] and n < 30:
        n += 1
        g = mk_and(g, v.a[0] if v.a[2] is UNDEF else mk_not(v.a[0]))
        v = v.a[1] if v.a[2] is UNDEF else v.a[2]
    if v.k == "op" and v.d == "kv" and len(v.a) == 2:
        return g, v.a[0], v.a[1]
    if v.k == "ite" and g is TRUE:
        # the condition of the entry was a disjunction
        ls = ite_leaves(v, 3)
        if ls and len(ls) == 1:
            x = next(iter(ls))
            if x.k == "op" and x.d == "kv":
                return defined(v), x.a[0], x.a[1]
    return None


def _chain(v):
    out = [v]
    while v.k == "op" and v.d == "agg" and len(v.a) == 2 and len(out) < 40:
        v = v.a[0]
        out.append(v)
    return out


def _mk_chain(c, a, b):
    """both branches add to the same container"""
    ca, cb = _chain(a), _chain(b)
    pos = {v: i for i, v in enumerate(ca)}
    for j, v in enumerate(cb):
        if v in pos:
            ia = [x.a[1] for x in reversed(ca[:pos[v]])]
            ib = [x.a[1] for x in reversed(cb[:j])]
            r = v
            if len(ia) == len(ib):
                for x, y in zip(ia, ib):
                    r = mk("op", "agg", r, mk_ite(c, x, y))
                return r
            for x in ia:
                r = mk("op", "agg", r, mk_ite(c, x, UNDEF))
            for y in ib:
                r = mk("op", "agg", r, mk_ite(c, UNDEF, y))
            return r
    return None


def show(v, depth=5):
    if v is None:
        return "None"
    if depth < 0:
        return ".."
    s = lambda x: show(x, depth - 1)
    k = v.k
    if k == "const":
        return repr(cval(v))
    if k == "sym":
        return v.d
    if k == "attr":
        return s(v.a[0]) + "." + v.d
    if k == "item":
        return "%s[%s]" % (s(v.a[0]), s(v.a[1]))
    if k == "elem":
        return s(v.a[0]) + "[*]"
    if k == "ite":
        return "ite(%s, %s, %s)" % tuple(map(s, v.a))
    if k == "call":
        return "%s(%s)" % (v.d[0], ", ".join(map(s, v.a)))
    return "%s:%s(%s)" % (k, v.d, ", ".join(map(s, v.a)))
