"""Abstract interpreter over the gated value graph.

One pass over the source of an entry function (callees in the repository are
interpreted in place), joining states at every merge point.  Branches are never
enumerated as paths and nothing is executed: the result is, per output cell, the
expression graph that says from which inputs, through which operations and under
which conditions the cell gets its value."""
import ast
import re
import string

from . import values as vv
from .values import (EMPTY, FALSE, NONE, TRUE, UNDEF, const, cval, defined, is_const, loopy, mk,
                     mk_and, mk_any, mk_ite, mk_not, mk_or, op, truth)

MUTATORS = {
    "append", "extend", "add", "update", "insert", "remove", "discard", "clear", "pop",
    "popitem", "setdefault", "sort", "reverse", "appendleft", "popleft", "merge",
    "subtract", "move_to_end", "fill", "difference_update", "intersection_update",
    "symmetric_difference_update", "__setitem__", "__delitem__", "setflags", "itemset",
}
VALUE_MUTATORS = {"pop", "popitem", "setdefault", "popleft"}
BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
    ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}
CMPOPS = {
    ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==",
    ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
    ast.NotIn: "not in",
}
DROP_ROOTS = {"logger", "logging", "tf.get_logger"}
UNROLL = 14
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


def there(v):
    """condition under which a field holds something"""
    if v.k == "undef":
        return FALSE
    if v.k == "ite":
        return mk_ite(v.a[0], there(v.a[1]), there(v.a[2]))
    return TRUE


def sure(v):
    """what a field holds if it holds something"""
    if v.k == "ite":
        a, b = sure(v.a[1]), sure(v.a[2])
        return b if a.k == "undef" else a if b.k == "undef" else mk_ite(v.a[0], a, b)
    return v


STRFOLD = {"split", "lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace"}
LITERAL = {"dict", "list", "set", "tuple", "str", "int", "float", "bool", "bytes"}


def is_a(x, t):
    """isinstance of a value whose kind is plain, None when it is not"""
    if t.k == "cls":
        return FALSE if x.k in ("tup", "const") else None
    if t.k != "mod" or t.d not in LITERAL:
        return None
    k = None
    if x.k == "obj" and x.d[1] in ("dict", "list", "set"):
        k = x.d[1]
    elif x.k == "tup":
        k = "tuple"
    elif is_const(x):
        k = type(cval(x)).__name__
        if k == "bool" and t.d == "int":
            return TRUE
    if k is None:
        return None
    return TRUE if k == t.d else FALSE


class Budget(Exception):
    pass


class State:
    __slots__ = ("envs", "heap", "guards", "dead")

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.guards = ()
        self.dead = None

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.guards = self.guards
        s.dead = self.dead
        return s

    def become(self, o):
        self.envs, self.heap, self.guards, self.dead = o.envs, o.heap, o.guards, o.dead


class Frame:
    def __init__(self, fi, uid, base, cls, selfv):
        self.fi = fi
        self.uid = uid
        self.base = base
        self.cls = cls
        self.selfv = selfv
        self.returns = []
        self.loops = []
        self.closure = None
        self.yields = None
        self.fin = 0


def mk_kv(k, v, d=0):
    if v.k == "ite" and d < 6:
        return mk_ite(v.a[0], mk_kv(k, v.a[1], d + 1), mk_kv(k, v.a[2], d + 1))
    return mk("op", "kv", k, v)


def strip_undef(v):
    """the value, given that it is defined"""
    if v.k == "ite":
        a, b = strip_undef(v.a[1]), strip_undef(v.a[2])
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return mk_ite(v.a[0], a, b)
    return v


def has_mu(v, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        memo[v] = False
        r = memo[v] = v.k == "mu" or any(has_mu(x, memo) for x in v.a)
    return r


def fits(v, limit):
    seen, todo = {v}, [v]
    while todo:
        for x in todo.pop().a:
            if x not in seen:
                seen.add(x)
                todo.append(x)
        if len(seen) > limit:
            return False
    return True


def subst(v, m, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        r = m.get(v)
        if r is None:
            if not v.a or v.k == "mu":
                r = v
            else:
                a = [subst(x, m, memo) for x in v.a]
                r = v if all(x is y for x, y in zip(a, v.a)) else (
                    mk_ite(*a) if v.k == "ite" else mk(v.k, v.d, *a))
        memo[v] = r
    return r


def mk_all(c):
    return mk_not(mk_any(mk_not(c)))


def addends(v, mu):
    """v == mu + rest  ->  rest (gated), else None"""
    if v is mu:
        return UNDEF
    if v.k == "ite":
        a, b = addends(v.a[1], mu), addends(v.a[2], mu)
        if a is None or b is None or has_mu(v.a[0]):
            return None
        return mk_ite(v.a[0], a, b)
    if v.k == "op" and v.d == "+" and sum(1 for x in v.a if x is mu) == 1:
        rest = [x for x in v.a if x is not mu]
        if any(has_mu(x) for x in rest):
            return None
        return rest[0] if len(rest) == 1 else op("+", *rest)
    return None


def mk_fold(init, v, lc=None):
    """value of a cell after a loop: init before it, v after one more round"""
    if lc is None:
        mu = None
        if v.k == "ite" or v.k == "op" and v.d == "+":
            stack, seen = [v], set()
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.k == "mu" and x.a[0] is init:
                    mu = x
                    break
                if x.k == "ite" or x.k == "op" and x.d == "+":
                    stack.extend(x.a[1:] if x.k == "ite" else x.a)
        if mu is not None:
            r = addends(v, mu)
            if r is not None and r is not UNDEF:
                tot = mk("call", ("sum", ()), mk("op", "comp", r))
                return tot if is_const(init) and cval(init) == 0 and init.d[0] == "int" else op("+", init, tot)
            if v.k == "ite" and init in (TRUE, FALSE) and not has_mu(v.a[0]):
                c, a, b = v.a
                if b is mu and is_const(a):
                    hit, c = a, c
                elif a is mu and is_const(b):
                    hit, c = b, mk_not(c)
                else:
                    hit = None
                if hit is TRUE and init is FALSE:
                    return mk_any(c)
                if hit is FALSE and init is TRUE:
                    return mk_not(mk_any(c))
    chain = []
    x = v
    while x.k == "op" and x.d == "agg" and len(x.a) == 2:
        chain.append(x.a[1])
        x = x.a[0]
    if chain and lc is None and x.k == "mu" and x.a[0] is init:
        r = init
        for y in reversed(chain):
            r = mk("op", "agg", r, y)
        return r
    if lc is not None:
        v = mk_ite(lc, v, UNDEF)
    return mk("op", "fold", init, v)


def always_raises(b):
    if not b:
        return False
    s = b[-1]
    if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for y in b for x in ast.walk(y)):
        return False
    if isinstance(s, ast.Raise):
        return True
    if isinstance(s, ast.If) and s.orelse:
        return always_raises(s.body) and always_raises(s.orelse)
    return False


class Interp:
    LIMIT = 250000
    DEPTH = 14

    def __init__(self, index, opaque=(), inline_new=()):
        self.ix = index
        self.opaque = set(opaque)
        self.digests = {}
        self.funcs = {}
        self.types = {}
        self.tables = {}
        self.frames = []
        self.events = []
        self.mute = 0
        self.steps = 0
        self.seq = 0
        self.notes = set()
        self.called = set()
        self._lits = {}

    # ------------------------------------------------------------------ utils
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.LIMIT:
            raise Budget()

    @property
    def fr(self):
        return self.frames[-1]

    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__"):
            for f in reversed(self.frames):
                if f.cls is not None:
                    return "_%s%s" % (f.cls.name.lstrip("_"), name)
        return name

    def event(self, st, kind, name, args=(), node=None, **kw):
        if self.mute:
            return
        e = dict(kind=kind, name=name, args=tuple(args), guards=st.guards,
                 line=getattr(node, "lineno", 0),
                 file=self.fr.fi.file if self.frames else "",
                 func=self.fr.fi.qual if self.frames else "",
                 fin=any(f.fin for f in self.frames), seq=self.seq)
        self.seq += 1
        if kind == "raise":
            e["guards"] = self.lift(st.guards)
            e["dirty"] = tuple(sorted(self.dirty(st)))
        e.update(kw)
        self.events.append(e)

    def lift(self, guards):
        """conditions on a round of an enclosing loop, as conditions on the loop"""
        bases = [l["base"] for f in self.frames for l in f.loops if l.get("generic")]
        for b in sorted(bases, reverse=True):
            if len(guards) > b:
                guards = guards[:b] + (mk_any(mk_and(*guards[b:])),)
        return guards

    def dirty(self, st):
        out = set()
        for loc, fields in st.heap.items():
            r = loc
            while r.k in ("attr", "item", "elem"):
                r = r.a[0]
            if r.k == "sym":
                for f in fields:
                    if fields[f] is not self.initial(loc, f):
                        out.add("%r.%s" % (loc, f))
        return out

    # ------------------------------------------------------------------ types
    def typeof(self, v, depth=0):
        if v in self.types:
            return self.types[v]
        if depth > 6:
            return None
        if v.k == "new":
            return v.d[1]
        if v.k == "attr":
            t = self.typeof(v.a[0], depth + 1)
            if t is not None:
                r = self.ix.attr_types(t).get(v.d)
                self.types[v] = r
                return r
        if v.k == "op" and v.d in ("copy", "fold") :
            return self.typeof(v.a[0], depth + 1)
        if v.k == "mu":
            return self.typeof(v.a[0], depth + 1)
        if v.k == "ite":
            a, b = self.typeof(v.a[1], depth + 1), self.typeof(v.a[2], depth + 1)
            if v.a[1] is NONE:
                return b
            if v.a[2] is NONE:
                return a
            return a if a is b else None
        return None

    # ------------------------------------------------------------------- heap
    def initial(self, loc, f):
        if f == "[]":
            return EMPTY
        if loc.k == "obj":
            return UNDEF
        if f.startswith("["):
            return mk("item", None, loc, self.keyof(f))
        return mk("attr", f, loc)

    def keyof(self, f):
        return self._keys[f]

    _keys = {}

    def field_of_key(self, k):
        f = "[%s:%r]" % (k.d[0][0], k.d[1])
        self._keys[f] = k
        return f

    def wr(self, st, loc, f, val):
        if val.k == "mu" and False:
            return
        d = dict(st.heap.get(loc, ()))
        d[f] = val
        st.heap[loc] = d

    def alloc(self, st, kind):
        o = mk("obj", (vv.uid(), kind))
        st.heap[o] = {}
        return o

    def mk_list(self, st, vals, kind="list"):
        o = self.alloc(st, kind)
        d = {}
        for i, v in enumerate(vals):
            d[self.field_of_key(const(i))] = v
        st.heap[o] = d
        return o

    def known_seq(self, v, st):
        """list of element values when v is a sequence of known shape."""
        if v.k == "tup":
            return list(v.a)
        if v.k == "obj" and v.d[1] in ("list", "set"):
            d = st.heap.get(v, {})
            if "[]" in d and d["[]"] is not EMPTY:
                return None
            out = []
            for i in range(len(d)):
                f = self.field_of_key(const(i))
                if f not in d:
                    return None
                out.append(d[f])
            return out
        if v.k == "op" and v.d == "copy":
            return self.known_seq(v.a[0], st)
        return None

    def known_dict(self, v, st):
        if v.k == "obj" and v.d[1] == "dict":
            d = st.heap.get(v, {})
            if "[]" in d and d["[]"] is not EMPTY:
                return None
            out = []
            for f, x in d.items():
                if not f.startswith("["):
                    return None
                out.append((self.keyof(f), x))
            return out
        return None

    def freeze(self, v, st, seen=None, depth=0, memo=None):
        """Replace heap locations by a snapshot of their content."""
        k = v.k
        if k in ("const", "undef", "empty", "cls", "mod"):
            return v
        if memo is None:
            memo = {"kids": self.kids(st)}
        r = memo.get(v)
        if r is None:
            self.tick()
            r = self._freeze(v, st, seen or frozenset(), depth, memo)
            if r.k != "op" or r.d != "rec":
                memo[v] = r
        return r

    def kids(self, st):
        """computed value -> locations inside it that were written"""
        out = {}
        for loc, d in st.heap.items():
            if loc.k not in ("item", "attr", "elem"):
                continue
            while loc.k in ("item", "attr", "elem"):
                b = loc.a[0]
                ks = out.setdefault(b, [])
                if loc in ks:
                    break
                ks.append(loc)
                loc = b
        bad = []
        for b in out:
            r = b
            while r.k in ("attr", "item", "elem") or (r.k == "op" and r.d == "copy"):
                r = r.a[0]
            if r.k in ("sym", "cls", "mod"):
                bad.append(b)
        for b in bad:
            del out[b]
        return out

    def _freeze(self, v, st, seen, depth, memo):
        k = v.k
        if k == "func":
            return self.freeze_func(v, st)
        if depth > 12:
            return v
        kids = memo["kids"].get(v, ())
        if k in ("obj", "new") or ((kids or v in st.heap) and k in ("sym", "attr", "item", "elem", "call", "op", "mu", "ite")):
            d = st.heap.get(v, {})
            if v in seen:
                return mk("op", "rec")
            seen = seen | {v}
            parts = []
            for f in sorted(d):
                x = d[f]
                if k not in ("obj",) and x is self.initial(v, f):
                    continue
                if f == "[]" and x is EMPTY:
                    continue
                parts.append(mk("op", "fld:" + f, self.freeze(x, st, seen, depth + 1, memo)))
            dyn = []
            for loc in kids:
                f = (self.field_of_key(loc.a[1]) if is_const(loc.a[1]) else "[.]") if loc.k == "item" else \
                    loc.d if loc.k == "attr" else "[*]"
                if d.get(f, loc) is not loc:
                    continue
                x = self.freeze(loc, st, seen, depth + 1, memo)
                if x is loc:
                    continue
                if f == "[.]":
                    dyn.append(mk("op", "kv", loc.a[1], x))
                else:
                    parts.append(mk("op", "fld:" + f, x))
            if dyn:
                parts.append(mk("op", "fld:[.]", dyn[0] if len(dyn) == 1 else mk("op", "comp", *dyn)))
            if k == "obj":
                if v.d[1] in ("list", "set") and len(parts) == 1 and parts[0].d == "fld:[]":
                    x = parts[0].a[0]
                    if x.k == "op" and x.d == "agg" and x.a[0] is EMPTY and len(x.a) == 2:
                        return mk("op", "comp", x.a[1])
                return mk("op", "struct:" + v.d[1], *parts)
            base = v
            if k == "new":
                base = mk("op", "inst:" + v.d[1].name,
                          *[self.freeze(x, st, seen, depth + 1, memo) for x in v.a])
            if not parts:
                return base
            return mk("op", "mod", base, *parts)
        if k == "ite":
            c, a, b = v.a
            a2, b2 = (self.freeze(a, st, seen, depth + 1, memo), self.freeze(b, st, seen, depth + 1, memo))
            if a2 is a and b2 is b:
                return v
            return mk_ite(c, a2, b2)
        if k in ("tup",) or (k == "op" and v.d in ("copy", "fold", "comp", "kv", "agg", "gen")):
            aa = tuple(self.freeze(x, st, seen, depth + 1, memo) for x in v.a)
            return v if aa == v.a else mk(k, v.d, *aa)
        if k in ("attr", "item", "elem"):
            # path through a modified container
            b = v.a[0]
            if b.k in ("obj", "new") or b in memo["kids"] and b not in seen:
                b2 = self.freeze(b, st, seen, depth + 1, memo)
                return mk(k, v.d, b2, *v.a[1:])
        return v

    def freeze_func(self, v, st):
        fi, bound, clo = self.funcs[v]
        if fi.name == "<lambda>" or fi.parent is not None:
            try:
                return self.lambda_value(v, st)
            except RecursionError:
                return v
        return mk("op", "fn:" + fi.name, *((bound,) if bound is not None and bound.k in ("sym", "attr") else ()))

    def lambda_value(self, v, st):
        fi, bound, clo = self.funcs[v]
        if len(self.frames) > self.DEPTH or any(f.fi is fi for f in self.frames):
            return mk("op", "fn:rec")
        n = fi.node.args
        ps = [mk("sym", "%%%d" % i) for i in range(len(n.args))]
        s2 = st.copy()
        r = self.inline(v, ps, {}, s2, fi.node)
        if s2.dead:
            return mk("op", "fn")
        return mk("op", "fn", self.freeze(r, s2))

    # ------------------------------------------------------------------ joins
    def join(self, c, s1, s2):
        out = State()
        for u in set(s1.envs) | set(s2.envs):
            e1, e2 = s1.envs.get(u), s2.envs.get(u)
            if e1 is None or e2 is None:
                out.envs[u] = dict(e1 if e2 is None else e2)
                continue
            d = {}
            for n in {**e1, **e2}:
                a, b = e1.get(n), e2.get(n)
                if a is None:
                    d[n] = b
                elif b is None:
                    d[n] = a
                else:
                    d[n] = a if a is b else mk_ite(c, a, b)
            out.envs[u] = d
        for loc in {**s1.heap, **s2.heap}:
            h1, h2 = s1.heap.get(loc), s2.heap.get(loc)
            if h1 is h2:
                out.heap[loc] = h1
                continue
            if loc.k == "obj" and (h1 is None or h2 is None):
                out.heap[loc] = h1 if h2 is None else h2
                continue
            h1, h2 = h1 or {}, h2 or {}
            d = {}
            for f in {**h1, **h2}:
                a = h1.get(f)
                b = h2.get(f)
                if a is None:
                    a = self.initial(loc, f)
                if b is None:
                    b = self.initial(loc, f)
                d[f] = a if a is b else mk_ite(c, a, b)
            out.heap[loc] = d
        return out

    # ------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.tick()
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.notes.add("stmt " + type(s).__name__)
                continue
            m(s, st)

    def s_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call):
            self.call(v, st, stmt=True)
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            self.ev(v, st)
            return
        if isinstance(v, ast.Tuple):
            for e in v.elts:
                if isinstance(e, ast.Call):
                    self.call(e, st, stmt=True)
            return
        self.ev(v, st)

    def s_Pass(self, s, st):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        for a in s.names:
            st.envs[self.fr.uid][a.asname or a.name.split(".")[0]] = mk(
                "mod", a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, st):
        for a in s.names:
            base = s.module or ""
            if s.level:
                parts = self.fr.fi.module.name.split(".")
                if not self.fr.fi.module.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (s.level - 1)]
                base = ".".join(parts + ([s.module] if s.module else []))
            full = base + "." + a.name
            if full in self.ix.modules:
                v = mk("mod", full)
            elif base in self.ix.modules:
                v = self.from_resolved(self.ix.resolve(self.ix.modules[base], a.name), full, st)
            else:
                v = mk("mod", full)
            st.envs[self.fr.uid][a.asname or a.name] = v

    def s_FunctionDef(self, s, st):
        from .index import FuncInfo
        key = (id(s), self.fr.uid)
        fi = FuncInfo(s, self.fr.fi.module, None)
        fi.parent = self.fr.fi
        fi.defcls = self.fr.cls
        st.envs[self.fr.uid][s.name] = self.mkfunc(fi, None, self.fr.uid)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        self.notes.add("nested class")

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.dead:
            return
        f = self.fr
        f.returns.append((st.guards[f.base:], v, st.copy()))
        st.dead = "ret"

    def s_Raise(self, s, st):
        name, args = "reraise", ()
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                name = ast.unparse(e.func).split(".")[-1]
                for x in e.args:
                    if not isinstance(x, (ast.Constant, ast.Starred)):
                        args += (self.freeze(self.ev(x, st), st),)
            else:
                v = self.ev(e, st)
                name = ast.unparse(e).split(".")[-1]
                if v.k == "op" and v.d.startswith("excval:"):
                    name = "reraise"
                elif v.k == "call":
                    name = v.d[0].split(".")[-1]
        self.event(st, "raise", name, args, s)
        st.dead = "raise"

    def s_Assert(self, s, st):
        return

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.ev_slice(t.slice, st)
                self.mutate(st, b, "del", [k])
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.wr(st, b, self.mangle(t.attr), UNDEF)

    def s_Assign(self, s, st):
        x = s.value
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add) and isinstance(x.left, ast.Name) and len(
                s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == x.left.id:
            # xs = xs + ys on a list nobody else holds adds to it
            o = st.envs[self.fr.uid].get(x.left.id)
            if o is not None and o.k == "obj" and o.d[1] == "list" and not self.held(o, x.left.id, st):
                return self.s_AugAssign(ast.copy_location(ast.AugAssign(s.targets[0], x.op, x.right), s), st)
        v = self.ev(s.value, st)
        if st.dead:
            return
        for t in s.targets:
            self.assign(t, v, st)

    def held(self, o, name, st):
        """something other than the local variable refers to o"""
        for u, env in st.envs.items():
            for n, v in env.items():
                if v is o and (u != self.fr.uid or n != name):
                    return True
        seen = set()

        def has(v):
            if v is o:
                return True
            if not v.a or v in seen:
                return False
            seen.add(v)
            return any(has(y) for y in v.a)
        return any(has(v) for d in st.heap.values() for v in d.values())

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if st.dead:
                return
            self.assign(s.target, v, st)

    def s_AugAssign(self, s, st):
        t = s.target
        load = ast.copy_location(self.as_load(t), t)
        old = self.ev(load, st)
        v = self.ev(s.value, st)
        if st.dead:
            return
        o = BINOPS[type(s.op)]
        if old.k == "obj" and old.d[1] in ("list", "set", "dict") and o in ("+", "|"):
            ks, vs = self.known_seq(old, st), self.known_seq(v, st)
            if o == "+" and ks is not None and vs is not None:
                d = {}
                for i, x in enumerate(ks + vs):
                    d[self.field_of_key(const(i))] = x
                st.heap[old] = d
            else:
                self.mutate(st, old, "extend" if o == "+" else "update", [v])
            return
        self.assign(t, self.binop(o, old, v, st), st)

    def as_load(self, t):
        t2 = ast.parse(ast.unparse(t), mode="eval").body
        for n in ast.walk(t2):
            n.lineno = t.lineno
            n.col_offset = t.col_offset
        return t2

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            u = self.fr.uid
            # nonlocal / global declared names are rare; bind locally
            st.envs[u][t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.wr_attr(b, self.mangle(t.attr), v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev_slice(t.slice, st)
            self.wr_item(b, k, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            seq = self.known_seq(v, st)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("op", "rest", self.freeze(v, st)), st)
                elif seq is not None and not star and len(seq) == n:
                    self.assign(e, seq[i], st)
                else:
                    self.assign(e, self.rd_item(v, const(i), st), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def wr_attr(self, b, name, v, st):
        if b.k == "ite":
            c, x, y = b.a
            for loc, pos in ((x, True), (y, False)):
                if loc is NONE or loc.k == "undef":
                    continue
                old = self.rd_attr(loc, name, st, noprop=True)
                self.wr_attr(loc, name, mk_ite(c, v, old) if pos else mk_ite(c, old, v), st)
            return
        t = self.typeof(b)
        if t is not None:
            f = self.ix.find_setter(t, name)
            if f is not None and f not in [x.fi for x in self.frames]:
                self.inline(self.mkfunc(f, b, None), [v], {}, st, f.node)
                return
        self.wr(st, b, name, v)

    def wr_item(self, b, k, v, st):
        if b.k == "ite" and b.a[1].k != "const" and b.a[2].k != "const":
            c, x, y = b.a
            self.mutate(st, x, "set", [mk_ite(c, mk_kv(self.freeze(k, st), self.freeze(v, st)), UNDEF)])
            self.mutate(st, y, "set", [mk_ite(c, UNDEF, mk_kv(self.freeze(k, st), self.freeze(v, st)))])
            return
        if is_const(k):
            self.wr(st, b, self.field_of_key(k), v)
        else:
            old = st.heap.get(b, {}).get("[]", EMPTY)
            self.wr(st, b, "[]", mk("op", "agg", old, mk_kv(self.freeze(k, st), v)))

    def mutate(self, st, b, name, args):
        if b.k == "ite":
            c, x, y = b.a
            for loc, cc in ((x, c), (y, mk_not(c))):
                if loc.k in ("const", "undef"):
                    continue
                old = st.heap.get(loc, {}).get("[]", EMPTY)
                self.mutate(st, loc, name, args)
                new = st.heap.get(loc, {}).get("[]", EMPTY)
                self.wr(st, loc, "[]", mk_ite(cc, new, old))
            return
        if b.k == "obj" and b.d[1] in ("list", "set"):
            self.unposition(b, st)
        old = st.heap.get(b, {}).get("[]", EMPTY)
        if name in ("append", "add", "set", "appendleft"):
            x = args[0] if args else UNDEF
            new = mk("op", "agg", old, x)
        elif name in ("extend", "update", "union"):
            new = old
            for x in args:
                kd = self.known_dict(x, st)
                if kd is not None and name == "update":
                    for k, y in kd:
                        self.wr(st, b, self.field_of_key(k), y)
                    new = st.heap.get(b, {}).get("[]", EMPTY) if new is old else new
                    continue
                ks = self.known_seq(x, st)
                if ks is not None:
                    for y in ks:
                        new = mk("op", "agg", new, y)
                else:
                    new = mk("op", "agg", new, self.spread(x, st))
            if new is EMPTY:
                return
        else:
            new = mk("op", "mut:" + name, old, *[self.freeze(a, st) for a in args])
        self.wr(st, b, "[]", new)

    def unposition(self, b, st):
        """forget the positions of a literal list that is being modified"""
        d = st.heap.get(b, {})
        ks = [f for f in d if f != "[]" and f.startswith("[i:")]
        if not ks:
            return
        new = d.get("[]", EMPTY)
        for f in sorted(ks, key=lambda f: int(f[3:-1])):
            new = mk("op", "agg", new, d[f])
        st.heap[b] = {**{f: x for f, x in d.items() if f not in ks}, "[]": new}

    def content_of(self, a, st):
        if a.k == "obj" and a.d[1] == "list":
            d = st.heap.get(a, {})
            new = d.get("[]", EMPTY)
            for f in sorted((f for f in d if f.startswith("[i:")), key=lambda f: int(f[3:-1])):
                new = mk("op", "agg", new, self.freeze(d[f], st))
            return self.freeze(new, st)
        return self.freeze(a, st)

    def spread(self, x, st):
        """content of an iterable added wholesale"""
        x = self.content_of(x, st)
        if x.k == "op" and x.d in ("comp", "gen") and len(x.a) == 1:
            return x.a[0]
        return x

    def in_loop(self):
        return any(l.get("generic") for f in self.frames for l in f.loops)

    # ---- control flow
    def truth(self, v, st):
        """condition under which v is true, heap containers by their content"""
        if v.k == "obj":
            if v.d[1] in ("list", "set"):
                ks = self.known_seq(v, st)
                if ks is not None:
                    return TRUE if ks else FALSE
            elif v.d[1] == "dict":
                kd = self.known_dict(v, st)
                if kd is not None:
                    return mk_or(*[there(x) for k, x in kd]) if kd else FALSE
            return truth(self.freeze(v, st))
        if v.k == "ite" and (v.a[1].k == "obj" or v.a[2].k == "obj"):
            return mk_ite(v.a[0], self.truth(v.a[1], st), self.truth(v.a[2], st))
        return truth(v)

    def cond(self, e, st):
        """the test of a branch, as a boolean combination of atoms"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return mk_not(self.cond(e.operand, st))
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            acc = self.cond(e.values[0], st)
            for x in e.values[1:]:
                if st.dead or (is_and and acc is FALSE) or (not is_and and acc is TRUE):
                    return acc
                if self.pure(x):
                    n = self.given(acc if is_and else mk_not(acc), st, lambda x=x: self.cond(x, st))
                else:
                    box = []
                    self.branch(acc if is_and else mk_not(acc), st,
                                lambda z, x=x: box.append(self.cond(x, z)), lambda z: None)
                    n = box[0] if box else FALSE
                acc = mk_and(acc, n) if is_and else mk_or(acc, n)
            return acc
        return self.truth(self.ev(e, st), st)

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if st.dead:
            return
        self.branch(c, st, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x),
                    always_raises(s.orelse))

    def under(self, c, guards, depth=0):
        """c, simplified by what is known on this path"""
        if not guards or depth > 6 or c.k not in ("op", "ite", "call"):
            return c
        lits = self.lits(guards)
        return self._under(c, lits, 0)

    def lits(self, guards):
        deep = sum(bool(l.get("generic")) for f in self.frames for l in f.loops) > 1
        key = (guards, deep)
        r = self._lits.get(key)
        if r is None:
            r = {}
            for g in guards:
                for x in (g.a if g.k == "op" and g.d == "and" else (g,)):
                    if x is TRUE or "exc" in (x.d, x.a and x.a[0].d):
                        continue
                    if deep and loopy(x):
                        continue
                    r[x] = TRUE
                    r[mk_not(x)] = FALSE
                    if x.k == "op" and x.d == "==":
                        for y, z in (x.a, x.a[::-1]):
                            if is_const(z) and not is_const(y):
                                r["eq", y] = z
                                r[mk("op", "isnone", y)] = FALSE
            if len(self._lits) > 5000:
                self._lits.clear()
            self._lits[key] = r
        return r

    def _under(self, c, lits, d):
        r = lits.get(c)
        if r is not None:
            return r
        if c.k == "op" and c.d == "==":
            for y, z in (c.a, c.a[::-1]):
                if is_const(z) and ("eq", y) in lits:
                    return op("==", lits["eq", y], z)
        if d < 6 and c.k == "op" and c.d in ("and", "or"):
            xs = [self._under(x, lits, d + 1) for x in c.a]
            if any(x is not y for x, y in zip(xs, c.a)):
                return mk_and(*xs) if c.d == "and" else mk_or(*xs)
        elif d < 6 and c.k == "op" and c.d == "not":
            x = self._under(c.a[0], lits, d + 1)
            if x is not c.a[0]:
                return mk_not(x)
        elif d < 6 and c.k == "ite":
            g = self._under(c.a[0], lits, d + 1)
            if g is TRUE:
                return self._under(c.a[1], lits, d + 1)
            if g is FALSE:
                return self._under(c.a[2], lits, d + 1)
        return c

    def branch(self, c, st, f1, f2, raises2=False):
        c = self.under(c, st.guards)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        base = len(st.guards)
        s1, s2 = st.copy(), st.copy()
        s1.guards = st.guards + ((TRUE,) if raises2 else (c,))
        f1(s1)
        if s1.dead == "raise":
            if raises2:
                s2.guards = st.guards + (mk_not(c),)
        elif raises2:
            s2.guards = st.guards + (mk_not(c),)
        else:
            s2.guards = st.guards + (mk_not(c),)
        f2(s2)
        if s1.dead and s2.dead:
            if s1.dead == s2.dead:
                st.become(s2)
            else:
                st.become(s2 if s1.dead == "raise" else s1)
                st.dead = "mixed" if "raise" not in (s1.dead, s2.dead) else (
                    s2.dead if s1.dead == "raise" else s1.dead)
            return
        if s1.dead:
            g = s2.guards
            if s1.dead == "raise":
                g = s2.guards
            st.become(s2)
            st.guards = g
            return
        if s2.dead:
            g = s1.guards
            if s2.dead == "raise":
                g = s1.guards[:base] + s1.guards[base + 1:]
            st.become(s1)
            st.guards = g
            return
        e1, e2 = s1.guards[base + 1:], s2.guards[base + 1:]
        out = self.join(c, s1, s2)
        out.guards = st.guards[:base]
        if e1 or e2:
            g = mk_ite(c, mk_and(*e1), mk_and(*e2))
            if g is not TRUE:
                out.guards = out.guards + (g,)
        st.become(out)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if st.dead:
            return
        self.loop(it, lambda v, x: self.assign(s.target, v, x), s.body, s.orelse, st)

    def unroll(self, it, st):
        """[(guard, element)] when the iteration space is known, else None"""
        ks = self.known_seq(it, st)
        if ks is not None and len(ks) <= UNROLL:
            return [(TRUE, x) for x in ks]
        mode = "keys"
        b = it
        if it.k == "call" and it.d[0] in ("m.items", "m.keys", "m.values") and len(it.a) == 1:
            mode, b = it.d[0][2:], it.a[0]
        if it.k == "call" and it.d[0] in ("list", "tuple", "iter") and len(it.a) == 1:
            return self.unroll(it.a[0], st)
        if it.k == "op" and it.d == "copy":
            return self.unroll(it.a[0], st)
        if it.k == "call" and it.d[0] == "enumerate" and len(it.a) == 1:
            u = self.unroll(it.a[0], st)
            if u is not None:
                return [(g, mk("tup", None, const(i), x)) for i, (g, x) in enumerate(u)]
        if it.k == "call" and it.d[0] == "zip":
            us = [self.unroll(x, st) for x in it.a]
            if us and all(u is not None for u in us):
                return [(mk_and(*[p[0] for p in z]), mk("tup", None, *[p[1] for p in z]))
                        for z in zip(*us)]
        kd = self.known_dict(b, st)
        pairs = None
        if kd is not None and len(kd) <= 24:
            pairs = [(there(v), k, sure(v)) for k, v in kd if v.k != "undef"]
        else:
            tab = self.table(b)
            if tab:
                pairs = [(op("in", const(k), b), const(k), v) for k, v in tab.items()]
        if pairs is None:
            return None
        if mode == "keys":
            return [(g, k) for g, k, v in pairs]
        if mode == "values":
            return [(g, v) for g, k, v in pairs]
        return [(g, mk("tup", None, k, v)) for g, k, v in pairs]

    def elem_guard(self, v, st):
        """condition under which an element of a filtered collection is there"""
        while (v.k == "op" and v.d == "copy") or (v.k == "call" and v.d[0] in ("list", "tuple", "iter") and len(v.a) == 1):
            v = v.a[0]
        if v.k == "obj":
            v = self.freeze(v, st)
        if v.k == "op" and v.d == "comp" and len(v.a) == 1:
            return defined(v.a[0])
        return TRUE

    def elem(self, v, st):
        if v.k == "call":
            n = v.d[0]
            if n == "enumerate" and v.a:
                x = v.a[0]
                return mk("tup", None, mk("idx", None, x), self.elem(x, st))
            if n == "zip":
                return mk("tup", None, *[self.elem(x, st) for x in v.a])
            if n == "range" and len(v.a) == 1 and v.a[0].k == "call" and v.a[0].d[0] == "len":
                return mk("idx", None, v.a[0].a[0])
            if n == "m.items" and len(v.a) == 1:
                x = v.a[0]
                k = self.elem(x, st) if x.k == "obj" else mk("elem", None, x)
                return mk("tup", None, k, self.rd_item(x, k, st))
            if n == "m.keys" and len(v.a) == 1:
                return self.elem(v.a[0], st)
            if n == "m.values" and len(v.a) == 1:
                x = v.a[0]
                return self.rd_item(x, self.elem(x, st) if x.k == "obj" else mk("elem", None, x), st)
            if n in ("list", "tuple", "iter", "tqdm", "tqdm.tqdm", "set") and len(v.a) >= 1:
                return self.elem(v.a[0], st)
        if v.k == "op" and v.d == "copy":
            return self.elem(v.a[0], st)
        if v.k == "op" and v.d == "comp" and len(v.a) == 1:
            return strip_undef(v.a[0])
        if v.k == "ite":
            return mk_ite(v.a[0], self.elem(v.a[1], st), self.elem(v.a[2], st))
        if v.k == "obj":
            ks = self.known_seq(v, st)
            if ks is not None and len(ks) == 1:
                return ks[0]
            fz = self.freeze(v, st)
            if fz.k == "op" and fz.d == "comp" and len(fz.a) == 1:
                return strip_undef(fz.a[0])
            return mk("elem", None, fz)
        return mk("elem", None, v)

    def loop(self, it, bind, body, orelse, st, cond=None):
        un = self.unroll(it, st) if it is not None else None
        if un is not None:
            f = self.fr
            exits = []
            for g, x in un:
                if st.dead:
                    break

                def run(z, x=x):
                    ctx = dict(base=len(z.guards), cont=[], brk=[])
                    f.loops.append(ctx)
                    bind(x, z)
                    self.block(body, z)
                    f.loops.pop()
                    self.merge_alts(z, ctx["cont"], ctx["base"])
                    exits.extend(ctx["brk"])
                self.branch(g, st, run, lambda z: None)
            self.finish_breaks(st, exits)
            if not st.dead and orelse:
                self.block(orelse, st)
            return
        f = self.fr
        # pass 1: which cells change
        probe = st.copy()
        self.mute += 1
        nret = len(f.returns)
        ctx = dict(base=len(probe.guards), cont=[], brk=[], generic=True)
        f.loops.append(ctx)
        if cond is not None:
            c = self.cond(cond, probe)
            probe.guards = probe.guards + (c,)
            ctx["base"] = len(probe.guards)
        def round(z):
            g = self.elem_guard(it, z) if it is not None else TRUE
            if it is not None:
                bind(self.elem(it, z), z)
            if g is TRUE:
                self.block(body, z)
            else:
                self.branch(g, z, lambda y: self.block(body, y), lambda y: None)
        round(probe)
        f.loops.pop()
        del f.returns[nret:]
        self.mute -= 1
        changed_env, changed_heap = set(), set()
        for alt in [probe] * (not probe.dead) + [a for _, a in ctx["cont"] + ctx["brk"]]:
            for u, e in alt.envs.items():
                e0 = st.envs.get(u, {})
                for n, v in e.items():
                    if n in e0 and e0[n] is not v:
                        changed_env.add((u, n))
            for loc, d in alt.heap.items():
                d0 = st.heap.get(loc)
                if d0 is d:
                    continue
                if d0 is None and loc.k in ("obj", "new"):
                    continue
                d0 = d0 or {}
                for n, v in d.items():
                    o = d0.get(n)
                    if o is None:
                        o = self.initial(loc, n)
                    if o is not v:
                        changed_heap.add((loc, n))
        # pass 2
        s1 = st.copy()
        for u, n in changed_env:
            s1.envs[u][n] = mk("mu", n, st.envs[u][n])
        for loc, n in changed_heap:
            o = st.heap.get(loc, {}).get(n)
            if o is None:
                o = self.initial(loc, n)
            self.wr(s1, loc, n, mk("mu", "h", o))
        ctx = dict(base=len(s1.guards), cont=[], brk=[], generic=True)
        f.loops.append(ctx)
        lc = None
        if cond is not None:
            lc = self.cond(cond, s1)
            s1.guards = s1.guards + (lc,)
            ctx["base"] = len(s1.guards)
        n0 = len(self.events)
        round(s1)
        f.loops.pop()
        leave = [mk_and(*g) for g, _ in ctx["brk"]]
        leave += [mk_and(*g[len(st.guards) - f.base:]) for g, _, _ in f.returns[nret:]]
        if leave:
            # effects of a round are not had in the rounds after the one that leaves the loop
            u = mk("op", "until", mk_or(*leave))
            for e in self.events[n0:]:
                if e["kind"] in ("do", "with", "warn"):
                    e["guards"] = e["guards"] + (u,)
        self.merge_alts(s1, ctx["cont"], ctx["base"])
        out = st.copy()

        # a round is followed by another one only if it does not leave the loop
        stay = lc
        if ctx["brk"]:
            stay = mk_and(*([lc] if lc is not None else []), *[mk_not(mk_and(*g)) for g, _ in ctx["brk"]])

        def fold0(init, v):
            if v is init or (v.k == "mu" and v.a[0] is init):
                return init
            return mk_fold(init, v, stay)

        # what a cell holds when a round begins
        start = {}

        def begin(mu, val):
            start[mu] = val if start.get(mu, val) is val else mu

        def absorb(dst, src, last=False):
            def fold(init, v, own=None):
                if last:
                    if own is not None and v.k == "mu" and v.a[0] is init:
                        return own
                    return subst(v, start) if has_mu(v) else v
                return fold0(init, v)
            for u, e in src.envs.items():
                e0 = st.envs.get(u)
                d = dst.envs.setdefault(u, {})
                for n, v in e.items():
                    if e0 is not None and n in e0:
                        if (u, n) in changed_env:
                            own = d.get(n) if last else None
                            d[n] = fold(e0[n], v, own)
                            if not last:
                                begin(mk("mu", n, e0[n]), d[n])
                    else:
                        d[n] = v
            for loc, dd in src.heap.items():
                d0 = st.heap.get(loc)
                if d0 is None and loc.k in ("obj", "new"):
                    dst.heap[loc] = dd
                    continue
                if d0 is dd:
                    continue
                nd = dict(dst.heap.get(loc, {}))
                for n, v in dd.items():
                    o = (d0 or {}).get(n)
                    if o is None:
                        o = self.initial(loc, n)
                    if (loc, n) in changed_heap:
                        own = nd.get(n, o) if last else None
                        nd[n] = fold(o, v, own)
                        if not last:
                            begin(mk("mu", "h", o), nd[n])
                    elif v is not o:
                        nd[n] = v
                dst.heap[loc] = nd

        if not s1.dead:
            absorb(out, s1)
            self.carry(out, start, changed_env, changed_heap, n0)
        through = out.copy()
        if lc is TRUE:
            out.dead = "loop"
        # going on past the loop: no round has returned
        l0 = len(st.guards) - f.base
        ng = []
        for i in range(nret, len(f.returns)):
            g, v, s = f.returns[i]
            if len(g) > l0:
                a = mk_any(mk_and(*g[l0:]))
                f.returns[i] = (g[:l0] + (a,), v, s)
                if a is not TRUE:
                    ng.append(mk_not(a))
        if ng:
            out.guards = st.guards + tuple(ng)
        if orelse and not out.dead:
            self.block(orelse, out)
        for g, bs in ctx["brk"]:
            alt = through.copy()
            absorb(alt, bs, True)
            if out.dead:
                alt.guards = st.guards
                out = alt
            else:
                gg = mk_any(mk_and(*g))
                j = self.join(gg, alt, out)
                j.guards = out.guards
                out = j
        out.guards = st.guards + tuple(ng) if not out.dead else out.guards
        st.become(out)
        if st.dead:
            st.dead = st.dead

    def carry(self, out, start, envs, heap, n0):
        """what a cell takes from others that rounds before have changed"""
        # (kept beside the value before the loop: seen by comparisons of whole values only)
        m = {}
        for k, v in start.items():
            if v is not k and v is not k.a[0]:
                m[k] = mk("mu", k.d, k.a[0], mk("sym", "~" + vv.digest(self.freeze(v, out), self.digests)))
        if not m:
            return
        memo = {}

        def go(v):
            return subst(v, m, memo) if has_mu(v) else v
        for u, n in envs:
            if n in out.envs.get(u, ()):
                out.envs[u][n] = go(out.envs[u][n])
        for loc, n in heap:
            d = out.heap.get(loc)
            if d and n in d:
                v = go(d[n])
                if v is not d[n]:
                    self.wr(out, loc, n, v)
        for e in self.events[n0:]:
            e["args"] = tuple(go(v) for v in e["args"])
            e["guards"] = tuple(go(v) for v in e["guards"])

    def merge_alts(self, z, alts, base):
        """fold early exits (continue) into the fallthrough state"""
        for g, s in reversed(alts):
            if z.dead:
                gd = z.guards
                z.become(s)
                z.dead = None
                z.guards = z.guards[:base]
            else:
                out = self.join(mk_and(*g), s, z)
                out.guards = z.guards[:base]
                z.become(out)
        if not z.dead:
            z.guards = z.guards[:base]

    def finish_breaks(self, st, exits):
        for g, s in exits:
            if st.dead:
                gd = st.guards
                st.become(s)
                st.dead = None
            else:
                gs = st.guards
                out = self.join(mk_and(*g), s, st)
                out.guards = gs
                st.become(out)

    def s_While(self, s, st):
        c = self.cond(s.test, st.copy())
        if c is FALSE:
            return
        self.loop(None, None, s.body, s.orelse, st, cond=s.test)

    def s_Break(self, s, st):
        f = self.fr
        if f.loops:
            ctx = f.loops[-1]
            ctx["brk"].append((st.guards[ctx["base"]:], st.copy()))
        st.dead = "brk"

    def s_Continue(self, s, st):
        f = self.fr
        if f.loops:
            ctx = f.loops[-1]
            ctx["cont"].append((st.guards[ctx["base"]:], st.copy()))
        st.dead = "cont"

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            self.event(st, "with", "with", [self.freeze(v, st)], s)
            if it.optional_vars is not None:
                t = self.typeof(v)
                r = v
                if v.k == "new" and t is not None:
                    r = mk("op", "enter", v)
                self.assign(it.optional_vars, r, st)
        self.block(s.body, st)

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        pre = st.copy()
        f = self.fr
        nret = len(f.returns)
        f.fin += 1 if s.finalbody else 0
        self.block(s.body, st)
        if not st.dead and s.orelse:
            self.block(s.orelse, st)
        nbody = len(f.returns)
        alts = []
        for h in s.handlers:
            hs = pre.copy()
            tname = ast.unparse(h.type) if h.type is not None else "BaseException"
            names = sorted(x.strip().split(".")[-1] for x in tname.strip("()").split(",") if x.strip())
            g = mk("op", "exc", const("|".join(names)))
            if names == ["KeyError"]:
                g = self.lookup_fails(s.body, pre) or g
            hs.guards = pre.guards + (g,)
            hs.dead = None
            if h.name:
                hs.envs[f.uid][h.name] = mk("op", "excval:" + "|".join(names))
            self.block(h.body, hs)
            alts.append((g, hs))
        ne = tuple(mk_not(g) for g, hs in alts if hs.dead != "raise")
        if ne:
            for i in range(nret, nbody):
                g, v, z = f.returns[i]
                f.returns[i] = (g + ne, v, z)
        f.fin -= 1 if s.finalbody else 0
        out = st
        for g, hs in alts:
            if hs.dead:
                continue
            if out.dead:
                keep = out
                out = hs.copy()
                out.guards = pre.guards
            else:
                gg = out.guards
                out = self.join(g, hs, out)
                out.guards = gg
        if s.finalbody:
            f.fin += 1
            if out.dead:
                # run the cleanup on the way out
                z = out.copy()
                z.dead = None
                z.guards = pre.guards
                self.block(s.finalbody, z)
                if z.dead == "ret":
                    out = z
            else:
                self.block(s.finalbody, out)
            f.fin -= 1
        st.become(out)

    s_TryStar = s_Try

    def lookup_fails(self, body, st):
        """condition of a KeyError from a single look-up"""
        if len(body) != 1 or not isinstance(body[0], (ast.Assign, ast.Expr, ast.Return, ast.AugAssign, ast.AnnAssign)):
            return None
        subs, n = [], 0
        for x in ast.walk(body[0].value if body[0].value is not None else body[0]):
            if isinstance(x, ast.Subscript):
                subs.append(x)
            elif isinstance(x, ast.Call):
                return None
        if isinstance(body[0], ast.AugAssign) and isinstance(body[0].target, ast.Subscript):
            subs.append(body[0].target)
        if len(subs) != 1 or isinstance(subs[0].slice, (ast.Slice, ast.Tuple)):
            return None
        for x in (subs[0].value, subs[0].slice):
            if not all(isinstance(y, (ast.Name, ast.Attribute, ast.Constant, ast.expr_context)) for y in ast.walk(x)):
                return None
        z = st.copy()
        b, k = self.ev(subs[0].value, z), self.ev(subs[0].slice, z)
        c = mk_not(self.cmp("in", k, b, z))
        return None if is_const(c) else c

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.notes.add("expr " + type(e).__name__)
            return mk("op", "expr:" + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.narrow(self.name(e.id, st), st)

    def narrow(self, v, st):
        """the alternatives of v that are possible on this path"""
        if v.k != "ite" or not st.guards:
            return v
        lits = self.lits(st.guards)
        if not lits:
            return v
        return self._narrow(v, lits, 0)

    def _narrow(self, v, lits, d):
        if v.k != "ite" or d > 8:
            return v
        c, a, b = v.a
        g = self._under(c, lits, 0)
        if g is TRUE:
            return self._narrow(a, lits, d + 1)
        if g is FALSE:
            return self._narrow(b, lits, d + 1)
        x, y = self._narrow(a, lits, d + 1), self._narrow(b, lits, d + 1)
        return v if x is a and y is b else mk_ite(c, x, y)

    def name(self, n, st):
        fr = self.fr
        env = st.envs.get(fr.uid, {})
        if n in env:
            return env[n]
        c = fr.closure
        hops = 0
        while c is not None and hops < 8:
            env = st.envs.get(c[0])
            if env and n in env:
                return env[n]
            c = c[1]
            hops += 1
        r = self.ix.resolve(fr.fi.module, n)
        if r is not None:
            return self.from_resolved(r, n, st, fr.fi.module)
        if n in BUILTINS:
            return mk("mod", n)
        return mk("sym", "free:" + n)

    def from_resolved(self, r, n, st, module=None):
        if r is None:
            return mk("mod", n)
        if r[0] == "class":
            return mk("cls", r[1])
        if r[0] == "func":
            return self.mkfunc(r[1], None, None)
        if r[0] in ("mod", "ext"):
            return mk("mod", r[1])
        if r[0] == "const":
            e = r[1]
            if isinstance(e, ast.Constant):
                return const(e.value)
            if isinstance(e, (ast.Tuple, ast.List, ast.UnaryOp, ast.BinOp, ast.Set, ast.Dict)) and len(
                    list(ast.walk(e))) < 200 and not any(isinstance(x, ast.Call) for x in ast.walk(e)):
                try:
                    return self.ev(e, st)
                except RecursionError:
                    pass
            return mk("sym", "global:" + n)
        return mk("mod", n)

    def mkfunc(self, fi, bound, clo):
        v = mk("func", (id(fi.node), bound, clo))
        if v not in self.funcs:
            self.funcs[v] = (fi, bound, clo)
        return v

    def e_Attribute(self, e, st):
        return self.narrow(self.attribute(e, st), st)

    def attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.rd_attr(b, self.mangle(e.attr), st)

    def rd_attr(self, b, name, st, noprop=False):
        if b.k == "ite":
            c, x, y = b.a
            if x is NONE or x.k == "undef":
                return self.rd_attr(y, name, st, noprop)
            if y is NONE or y.k == "undef":
                return self.rd_attr(x, name, st, noprop)
            return mk_ite(c, self.rd_attr(x, name, st, noprop), self.rd_attr(y, name, st, noprop))
        h = st.heap.get(b)
        if h is not None and name in h:
            return h[name]
        if b.k == "mod":
            full = b.d + "." + name
            if b.d in self.ix.modules:
                r = self.ix.resolve(self.ix.modules[b.d], name)
                if r is not None:
                    return self.from_resolved(r, full, st)
                if full in self.ix.modules:
                    return mk("mod", full)
                return mk("sym", "global:" + full)
            return mk("mod", full)
        if b.k == "cls":
            c = b.d
            f = self.ix.find_method(c, name)
            if f is not None:
                if f.is_class:
                    return self.mkfunc(f, b, None)
                return self.mkfunc(f, None, None)
            if name == "__name__":
                return mk("op", "clsname", b)
            a = self.ix.find_class_assign(c, name)
            if a is not None and isinstance(a[0], ast.Constant):
                return const(a[0].value)
            return mk("attr", name, mk("sym", "class:" + c.name))
        t = self.typeof(b)
        if t is not None:
            f = self.ix.find_method(t, name)
            if f is not None:
                if f.is_prop:
                    if noprop:
                        return mk("attr", name, b)
                    fn = self.mkfunc(f, b, None)
                    if f.is_stub() or not self.can_inline(fn):
                        return mk("attr", name, b)
                    return self.inline(fn, [], {}, st, f.node)
                if f.is_static:
                    return self.mkfunc(f, None, None)
                if f.is_class:
                    return self.mkfunc(f, mk("cls", t), None)
                return self.mkfunc(f, b, None)
            if name == "__class__":
                return mk("cls", t)
        if name == "__class__":
            return mk("op", "type", b)
        if b.k == "op" and b.d == "mod":
            b = b.a[0]
        return mk("attr", name, b)

    def table(self, v):
        """dispatch table {key: function value} for an attribute initialised with a
        literal dict of functions"""
        if v in self.tables:
            return self.tables[v]
        self.tables[v] = None
        if v.k != "attr":
            return None
        t = self.typeof(v.a[0])
        if t is None:
            return None
        for k in self.ix.mro(t):
            name = v.d
            pre = "_%s__" % k.name.lstrip("_")
            plain = "__" + name[len(pre):] if name.startswith(pre) else name
            cands = []
            if plain in k.assigns:
                cands.append(k.assigns[plain])
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    tg = None
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tg, val = n.targets[0], n.value
                    elif isinstance(n, ast.AnnAssign) and n.value is not None:
                        tg, val = n.target, n.value
                    if isinstance(tg, ast.Attribute) and tg.attr == plain and isinstance(
                            tg.value, ast.Name) and tg.value.id == "self":
                        if name.startswith(pre) or not plain.startswith("__"):
                            cands.append(val)
            filled = [n for f in k.methods.values() for n in ast.walk(f.node)
                      if isinstance(n, ast.Assign) and len(n.targets) == 1
                      and isinstance(n.targets[0], ast.Subscript)
                      and isinstance(n.targets[0].value, ast.Attribute)
                      and n.targets[0].value.attr == plain
                      and isinstance(n.targets[0].value.value, ast.Name)
                      and n.targets[0].value.value.id == "self"
                      and isinstance(n.targets[0].slice, ast.Constant)]
            if filled and (name.startswith(pre) or not plain.startswith("__")) and any(
                    isinstance(v, ast.Dict) and not v.keys for v in cands):
                cands.append(ast.Dict([n.targets[0].slice for n in filled], [n.value for n in filled]))
            for val in cands:
                if isinstance(val, ast.Dict) and val.keys and all(
                        isinstance(x, ast.Constant) for x in val.keys):
                    out = {}
                    for kk, vvx in zip(val.keys, val.values):
                        fn = None
                        if isinstance(vvx, ast.Attribute) and isinstance(vvx.value, ast.Name):
                            r = self.ix.resolve(k.module, vvx.value.id)
                            if r and r[0] == "class":
                                fn = self.ix.find_method(r[1], vvx.attr)
                            elif vvx.value.id == "self":
                                fn = self.ix.find_method(t, vvx.attr)
                        elif isinstance(vvx, ast.Name):
                            r = self.ix.resolve(k.module, vvx.id)
                            if r and r[0] == "func":
                                fn = r[1]
                            elif r and r[0] == "class":
                                out[kk.value] = mk("cls", r[1])
                                continue
                        if fn is None:
                            out = None
                            break
                        out[kk.value] = self.mkfunc(fn, None, None)
                    if out:
                        self.tables[v] = out
                        return out
        return None

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            parts = [self.ev(x, st) if x is not None else NONE for x in (sl.lower, sl.upper, sl.step)]
            if all(p is NONE for p in parts):
                return mk("op", "copy", b)
            return mk("op", "slice", self.freeze(b, st), *parts)
        k = self.ev_slice(e.slice, st)
        return self.narrow(self.rd_item(b, k, st), st)

    def ev_slice(self, s, st):
        if isinstance(s, ast.Slice):
            parts = [self.ev(x, st) if x is not None else NONE for x in (s.lower, s.upper, s.step)]
            return mk("op", "slicekey", *parts)
        if isinstance(s, ast.Tuple):
            return mk("tup", None, *[self.freeze(self.ev_slice(x, st), st) for x in s.elts])
        v = self.ev(s, st)
        return v

    def rd_item(self, b, k, st):
        if b.k == "ite":
            return mk_ite(b.a[0], self.rd_item(b.a[1], k, st), self.rd_item(b.a[2], k, st))
        if k.k == "idx" and k.a[0] is b:
            return self.elem(b, st)
        if is_const(k):
            f = self.field_of_key(k)
            h = st.heap.get(b)
            if h is not None and f in h:
                return h[f]
            if b.k == "tup" and k.d[0] == "int" and -len(b.a) <= k.d[1] < len(b.a):
                return b.a[k.d[1]]
            if b.k == "attr":
                t = self.table(b)
                if t and cval(k) in t:
                    return t[cval(k)]
            if b.k == "obj" and h is not None and h.get("[]", EMPTY) is not EMPTY:
                return mk("item", None, self.freeze(b, st), k)
            if b.k == "obj" and k.d[0] == "int" and k.d[1] < 0:
                ks = self.known_seq(b, st)
                if ks is not None and -k.d[1] <= len(ks):
                    return ks[k.d[1]]
            return mk("item", None, b, k)
        w = st.heap.get(b, {}).get("[]", EMPTY)
        if w.k == "op" and w.d == "agg" and len(w.a) == 2:
            x = w.a[1]
            if x.k == "op" and x.d == "kv" and x.a[0] is self.freeze(k, st):
                return x.a[1]
        if b.k == "obj" or b.k in ("call", "op") and w is not EMPTY:
            return mk("item", None, self.freeze(b, st), self.freeze(k, st))
        return mk("item", None, b, self.freeze(k, st))

    def place(self, b, k, st):
        """container entry that is about to be modified in place"""
        if b.k == "obj" and not is_const(k):
            v = self.rd_item(b, k, st)
            if v.k == "item" and v.a[0] is not b:
                return mk("item", None, b, self.freeze(k, st))
            return v
        return self.rd_item(b, k, st)

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                ks = self.known_seq(v, st)
                out.extend(ks if ks is not None else [mk("op", "star", self.freeze(v, st))])
            else:
                out.append(self.ev(x, st))
        return mk("tup", None, *out)

    def e_List(self, e, st):
        t = self.e_Tuple(e, st)
        if any(x.k == "op" and x.d == "star" for x in t.a):
            o = self.alloc(st, "list")
            for x in t.a:
                self.mutate(st, o, "extend" if x.k == "op" and x.d == "star" else "set",
                            [x.a[0] if x.k == "op" and x.d == "star" else x])
            return o
        return self.mk_list(st, t.a)

    def e_Set(self, e, st):
        t = self.e_Tuple(e, st)
        return self.mk_list(st, t.a, "set")

    def e_Dict(self, e, st):
        o = self.alloc(st, "dict")
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, st)
            if k is None:
                self.mutate(st, o, "update", [x])
            else:
                self.wr_item(o, self.ev(k, st), x, st)
        return o

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                parts.append(self.freeze(self.ev(x.value, st), st))
            elif isinstance(x, ast.Constant):
                parts.append(const(x.value))
        return vv.mk_fmt(parts)

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_BinOp(self, e, st):
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            r = self.ev(e.right, st)
            rs = r.a if r.k == "tup" else (r,)
            rs = [self.freeze(x, st) for x in rs]
            lits = re.split(r"%[-+ #0-9.]*[sdrfeigx]", e.left.value)
            if len(lits) == len(rs) + 1 and "%" not in "".join(lits):
                rs = [y for x in zip(map(const, lits), rs + [const("")]) for y in x]
            return vv.mk_fmt(rs)
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(BINOPS[type(e.op)], a, b, st)

    def binop(self, o, a, b, st):
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                if not isinstance(x, (str, bytes, bool, type(None))) and not isinstance(y, (str, bytes, bool, type(None))):
                    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                         "/": lambda: x / y, "**": lambda: x ** y if abs(y) < 64 and abs(x) < 1e6 else None}.get(o, lambda: None)()
                    if r is not None:
                        return const(r)
                elif isinstance(x, str) and isinstance(y, str) and o == "+":
                    return const(x + y)
            except Exception:
                pass
        if o == "+" and a.k == "obj" and b.k == "obj":
            ka, kb = self.known_seq(a, st), self.known_seq(b, st)
            if ka is not None and kb is not None:
                return self.mk_list(st, ka + kb)
        if o == "+" and (self.listlike(a) or self.listlike(b)):
            new = self.content_of(a, st)
            ks = self.known_seq(b, st)
            if ks is not None:
                for y in ks:
                    new = mk("op", "agg", new, self.freeze(y, st))
            else:
                new = mk("op", "agg", new, self.spread(b, st))
            return new
        if o == "+" and (a.k == "tup" and b.k == "tup"):
            return mk("tup", None, *(a.a + b.a))
        return op(o, self.freeze(a, st), self.freeze(b, st))

    def listlike(self, v, d=0):
        if v.k == "obj":
            return v.d[1] == "list"
        if v.k == "op" and v.d in ("comp", "agg", "struct:list"):
            return True
        if d < 6 and (v.k == "mu" or v.k == "op" and v.d in ("copy", "fold")):
            return self.listlike(v.a[0], d + 1)
        if d < 6 and v.k == "ite":
            return self.listlike(v.a[1], d + 1) or self.listlike(v.a[2], d + 1)
        return False

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return mk_not(self.cond(e.operand, st))
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            if is_const(v) and v.d[0] in ("int", "float"):
                return const(-cval(v))
            return mk("op", "neg", self.freeze(v, st))
        if isinstance(e.op, ast.Invert):
            return mk("op", "~", self.freeze(v, st))
        return v

    def e_BoolOp(self, e, st):
        vals = []
        is_and = isinstance(e.op, ast.And)
        if len(e.values) > 3 and all(self.pure(x) for x in e.values):
            return self.cond(e, st)
        # short-circuit evaluation joined like a branch
        v = self.ev(e.values[0], st)
        if st.dead:
            return v
        acc = v
        for x in e.values[1:]:
            c = truth(acc)
            if (is_and and c is FALSE) or (not is_and and c is TRUE):
                return acc
            g = c if is_and else mk_not(c)
            box = []
            if self.pure(x):
                n = self.given(g, st, lambda x=x: self.ev(x, st))
            else:
                def run(z, x=x):
                    box.append(self.ev(x, z))
                self.branch(g, st, run, lambda z: None)
                n = box[0] if box else UNDEF
            if vv.is_bool(acc) and vv.is_bool(n):
                acc = mk_and(acc, n) if is_and else mk_or(acc, n)
            else:
                acc = mk_ite(c, n, acc) if is_and else mk_ite(c, acc, n)
        return acc

    def given(self, c, st, f):
        """evaluate without effects under a further condition"""
        g = st.guards
        st.guards = g + (self.under(c, g),)
        try:
            return f()
        finally:
            st.guards = g

    def pure(self, x):
        for n in ast.walk(x):
            if isinstance(n, (ast.Call, ast.Await, ast.NamedExpr)):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                        "isinstance", "len", "hasattr", "all", "any", "type", "str", "int", "float", "set", "callable"):
                    continue
                return False
            if isinstance(n, ast.Attribute):
                continue
        return True

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for o, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.cmp(CMPOPS[type(o)], left, right, st))
            left = right
        return mk_and(*out) if len(out) > 1 else out[0]

    def cmp(self, o, a, b, st):
        if o in ("in", "not in"):
            if b.k == "call" and b.d[0] == "m.keys" and len(b.a) == 1:
                b = b.a[0]
            if b.k == "call" and b.d[0] in ("list", "set", "tuple") and len(b.a) == 1:
                b = b.a[0]
            if b.k == "op" and b.d == "copy":
                b = b.a[0]
            ks = self.known_seq(b, st)
            if ks is not None and len(ks) <= UNROLL and all(is_const(x) for x in ks):
                if is_const(a):
                    r = TRUE if any(x is a or cval(x) == cval(a) for x in ks) else FALSE
                else:
                    r = mk_or(*[self.cmp("==", a, x, st) for x in ks])
                return r if o == "in" else mk_not(r)
            if ks is not None and 0 < len(ks) <= 6 and b.k == "tup" or b.k == "obj" and ks:
                r = mk_or(*[self.cmp("==", a, x, st) for x in ks])
                return r if o == "in" else mk_not(r)
            kd = self.known_dict(b, st)
            if kd is not None and is_const(a):
                r = TRUE if any(k is a for k, _ in kd) else FALSE
                return r if o == "in" else mk_not(r)
        if o in ("is", "is not", "==", "!=") and (a.k == "ite" or b.k == "ite") and (
                b is NONE or a is NONE):
            x = a if b is NONE else b
            r = mk_ite(x.a[0], self.cmp("is", x.a[1], NONE, st), self.cmp("is", x.a[2], NONE, st))
            return r if o in ("is", "==") else mk_not(r)
        return op(o, self.freeze(a, st) if a.k != "obj" or o not in ("is", "is not") else a,
                  self.freeze(b, st) if b.k != "obj" or o not in ("is", "is not") else b)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if st.dead:
            return UNDEF
        r = {}

        def f1(z):
            r[1] = self.ev(e.body, z)

        def f2(z):
            r[2] = self.ev(e.orelse, z)
        self.branch(c, st, f1, f2)
        if 1 in r and 2 in r:
            return mk_ite(c, r[1], r[2])
        return r.get(1) or r.get(2) or UNDEF

    def e_Lambda(self, e, st):
        from .index import FuncInfo
        node = e
        if not hasattr(node, "_fi"):
            fn = ast.Lambda(args=e.args, body=e.body)
            fi = FuncInfo.__new__(FuncInfo)
            fi.node = e
            fi.module = self.fr.fi.module
            fi.cls = None
            fi.name = "<lambda>"
            fi.parent = self.fr.fi
            fi.qual = self.fr.fi.qual + ".<lambda>"
            fi.is_static = fi.is_class = fi.is_prop = fi.is_setter = False
            fi.is_gen = False
            fi.decorators = []
            fi.defcls = self.fr.cls
            node._fi = fi
        return self.mkfunc(node._fi, None, self.fr.uid)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Starred(self, e, st):
        return mk("op", "star", self.freeze(self.ev(e.value, st), st))

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        y = self.fr.yields
        if y is not None:
            self.mutate(st, y, "set", [v])
        return mk("op", "sent")

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        y = self.fr.yields
        if y is not None:
            self.mutate(st, y, "extend", [v])
        return mk("op", "sent")

    def e_Slice(self, e, st):
        return self.ev_slice(e, st)

    # comprehensions
    def comp(self, gens, st, elt):
        env = st.envs[self.fr.uid]
        saved = dict(env)
        conds = []

        def go(i):
            if i == len(gens):
                return elt(st)
            g = gens[i]
            it = self.ev(g.iter, st)
            un = self.unroll(it, st)
            if un is not None and len(un) <= UNROLL:
                outs = []
                for gd, x in un:
                    self.assign(g.target, x, st)
                    c = mk_and(gd, *[self.cond(q, st) for q in g.ifs])
                    if c is FALSE:
                        continue
                    outs.append((c, go(i + 1)))
                return ("many", outs)
            eg = self.elem_guard(it, st)
            self.assign(g.target, self.elem(it, st), st)
            c = mk_and(eg, *[self.cond(q, st) for q in g.ifs])
            r = go(i + 1)
            if isinstance(r, tuple):
                return ("many", [(mk_and(c, cc), x) for cc, x in self.flat(r)], True)
            return ("one", c, r)

        r = go(0)
        env2 = st.envs[self.fr.uid]
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    if n.id in saved:
                        env2[n.id] = saved[n.id]
                    else:
                        env2.pop(n.id, None)
        return r

    def flat(self, r):
        if not isinstance(r, tuple) or r[0] not in ("many", "one"):
            return [(TRUE, r)]
        if r[0] == "one":
            return [(mk_and(r[1], c), x) for c, x in self.flat(r[2])]
        return [(mk_and(c, cc), x) for c, y in r[1] for cc, x in self.flat(y)]

    def known_comp(self, r):
        return isinstance(r, tuple) and r[0] == "many" and len(r) == 2 and all(
            not isinstance(x, tuple) or self.known_comp(x) for c, x in r[1])

    def e_ListComp(self, e, st, kind="list"):
        r = self.comp(e.generators, st, lambda z: self.ev(e.elt, z))
        fl = self.flat(r)
        if self.known_comp(r) and all(c is TRUE for c, _ in fl):
            return self.mk_list(st, [x for _, x in fl], kind)
        content = EMPTY
        items = [mk_ite(c, self.freeze(x, st), UNDEF) for c, x in fl]
        if len(items) == 1:
            return mk("op", "comp", items[0])
        return mk("op", "comp", *items)

    def e_SetComp(self, e, st):
        return self.e_ListComp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st)

    def e_DictComp(self, e, st):
        r = self.comp(e.generators, st, lambda z: mk("op", "kv", self.ev(e.key, z), self.ev(e.value, z)))
        fl = self.flat(r)
        o = self.alloc(st, "dict")
        for c, x in fl:
            if c is TRUE and is_const(x.a[0]):
                self.wr(st, o, self.field_of_key(x.a[0]), x.a[1])
            else:
                old = st.heap[o].get("[]", EMPTY)
                fz = mk_kv(self.freeze(x.a[0], st), self.freeze(x.a[1], st))
                self.wr(st, o, "[]", mk_ite(c, mk("op", "agg", old, fz), old))
        return o

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        return self.call(e, st)

    def args(self, e, st):
        pos, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                ks = self.known_seq(v, st)
                if ks is not None:
                    pos.extend(ks)
                else:
                    pos.append(mk("op", "star", v))
            else:
                pos.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                kd = self.known_dict(v, st)
                if kd is not None and all(x.d[0] == "str" for x, _ in kd):
                    for x, y in kd:
                        kw[cval(x)] = y
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return pos, kw

    def opaque_call(self, name, pos, kw, st, node, stmt):
        fz = [self.freeze(x, st) for x in pos]
        kn = tuple(sorted(kw))
        fz += [self.freeze(kw[k], st) for k in kn]
        v = mk("call", (name, kn), *fz)
        if stmt:
            self.event(st, "do", name, [v], node)
        return v

    def call(self, e, st, stmt=False):
        fn = e.func
        # logging is not observable behaviour here
        root = fn
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id in DROP_ROOTS or (
                isinstance(fn, ast.Name) and fn.id == "print"):
            return NONE
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args:
            return mk("op", "super", self.fr.selfv or UNDEF)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(
                fn.value.func, ast.Name) and fn.value.func.id == "super":
            f = None
            selfv = self.find_self()
            cls = self.find_cls()
            if selfv is not None and cls is not None:
                t = self.typeof(selfv) if selfv.k != "cls" else selfv.d
                f = self.ix.find_method(t or cls, fn.attr, after=cls)
            pos, kw = self.args(e, st)
            if f is None:
                return self.opaque_call("super." + fn.attr, pos, kw, st, e, stmt)
            fv = self.mkfunc(f, selfv if not f.is_static else None, None)
            return self.apply(fv, pos, kw, st, e, stmt)
        if isinstance(fn, ast.Attribute):
            if fn.attr in MUTATORS and isinstance(fn.value, ast.Subscript) and not isinstance(
                    fn.value.slice, (ast.Slice, ast.Tuple)):
                b = self.ev(fn.value.value, st)
                k = self.ev_slice(fn.value.slice, st)
                b = self.narrow(self.place(b, k, st), st)
            else:
                b = self.ev(fn.value, st)
            if st.dead:
                return UNDEF
            name = self.mangle(fn.attr)
            return self.call_attr(b, name, e, st, stmt)
        f = self.ev(fn, st)
        pos, kw = self.args(e, st)
        if st.dead:
            return UNDEF
        return self.apply(f, pos, kw, st, e, stmt)

    def find_self(self):
        for f in reversed(self.frames):
            if f.selfv is not None:
                return f.selfv
        return None

    def find_cls(self):
        for f in reversed(self.frames):
            if f.cls is not None:
                return f.cls
        return None

    def call_attr(self, b, name, e, st, stmt):
        if b.k == "ite" and b.a[1].k != "undef" and b.a[2].k != "undef":
            t = self.typeof(b)
            if t is None or self.ix.find_method(t, name) is None:
                fz = b
            else:
                # dispatch per alternative
                c, x, y = b.a
                if x is NONE:
                    return self.call_attr(y, name, e, st, stmt)
                if y is NONE:
                    return self.call_attr(x, name, e, st, stmt)
                r = {}

                def f1(z):
                    r[1] = self.call_attr(x, name, e, z, stmt)

                def f2(z):
                    r[2] = self.call_attr(y, name, e, z, stmt)
                self.branch(c, st, f1, f2)
                return mk_ite(c, r.get(1, UNDEF), r.get(2, UNDEF))
        if b.k in ("mod", "cls"):
            f = self.rd_attr(b, name, st)
            pos, kw = self.args(e, st)
            if st.dead:
                return UNDEF
            return self.apply(f, pos, kw, st, e, stmt)
        h = st.heap.get(b)
        if h is not None and name in h:
            f = h[name]
            pos, kw = self.args(e, st)
            return self.apply(f, pos, kw, st, e, stmt)
        t = self.typeof(b)
        if t is not None and self.ix.find_method(t, name) is not None:
            f = self.rd_attr(b, name, st)
            pos, kw = self.args(e, st)
            if st.dead:
                return UNDEF
            return self.apply(f, pos, kw, st, e, stmt)
        pos, kw = self.args(e, st)
        if st.dead:
            return UNDEF
        return self.method(b, name, pos, kw, st, e, stmt)

    def method(self, b, name, pos, kw, st, e, stmt):
        if name == "format" and (b.k == "const" and b.d[0] == "str"):
            pos = [self.freeze(x, st) for x in pos]
            kw = {k: self.freeze(x, st) for k, x in kw.items()}
            parts, auto = [], 0
            try:
                for lit, name, spec, conv in string.Formatter().parse(cval(b)):
                    parts.append(const(lit))
                    if name is None:
                        continue
                    if name == "":
                        name, auto = str(auto), auto + 1
                    parts.append(pos[int(name)] if name.isdigit() else kw[name])
            except (ValueError, IndexError, KeyError):
                parts = pos + [kw[k] for k in sorted(kw)]
            return vv.mk_fmt(parts)
        if b.k == "const" and b.d[0] == "str" and name in STRFOLD and not kw and all(is_const(x) for x in pos):
            try:
                r = getattr(cval(b), name)(*[cval(x) for x in pos])
            except (TypeError, ValueError):
                r = None
            if isinstance(r, list):
                return self.mk_list(st, [const(x) for x in r])
            if r is not None:
                return const(r)
        if name == "copy" and not pos and not kw:
            return mk("op", "copy", self.freeze(b, st) if b.k == "obj" else b)
        if name in ("keys", "items", "values") and not pos and not kw:
            return mk("call", ("m." + name, ()), b)
        if name == "get" and 1 <= len(pos) <= 2 and not kw:
            d = pos[1] if len(pos) > 1 else NONE
            if is_const(pos[0]):
                f = self.field_of_key(pos[0])
                h = st.heap.get(b, {})
                if f in h:
                    return mk_ite(there(h[f]), sure(h[f]), d) if b.k == "obj" else h[f]
                if b.k == "obj" and h.get("[]", EMPTY) is EMPTY:
                    return d
            return mk_ite(self.cmp("in", pos[0], b, st), self.rd_item(b, pos[0], st), d)
        if name == "setdefault" and len(pos) == 2 and not kw and b.k != "ite":
            self.branch(mk_not(self.cmp("in", pos[0], b, st)), st,
                        lambda z: self.wr_item(b, pos[0], pos[1], z), lambda z: None)
            return NONE if stmt else self.place(b, pos[0], st)
        if name in MUTATORS and b.k not in ("mod", "cls", "func", "const"):
            if name == "update" and kw and "**" not in kw and len(pos) <= 1:
                if pos:
                    self.mutate(st, b, name, pos)
                for k in kw:
                    self.wr_item(b, const(k), kw[k], st)
                return NONE
            args = list(pos) + [kw[k] for k in sorted(kw)]
            ret = NONE
            if name in VALUE_MUTATORS or not stmt:
                ret = mk("call", ("m." + name, ()), self.freeze(b, st), *[self.freeze(a, st) for a in args])
                if name == "setdefault" and args and b.k != "ite":
                    k = args[0]
                    old = mk("call", ("m.setdefault", ()), b, *[self.freeze(a, st) for a in args])
                    self.mutate(st, b, name, args)
                    return old
                if name == "pop" and args and is_const(args[0]) and b.k != "ite":
                    f = self.field_of_key(args[0])
                    h = st.heap.get(b, {})
                    if f in h:
                        ret = h[f]
                        if b.k == "obj":
                            d = dict(h)
                            del d[f]
                            st.heap[b] = d
                            return ret
            self.mutate(st, b, "del" if name == "pop" and args else name, args)
            return ret
        if name in ("__add__",) and len(pos) == 1:
            return self.binop("+", b, pos[0], st)
        return self.opaque_call("m." + name, [b] + list(pos), kw, st, e, stmt)

    def apply(self, f, pos, kw, st, e, stmt=False):
        if f.k == "ite":
            c, x, y = f.a
            r = {}

            def f1(z):
                r[1] = self.apply(x, pos, kw, z, e, stmt)

            def f2(z):
                r[2] = self.apply(y, pos, kw, z, e, stmt)
            self.branch(c, st, f1, f2)
            return mk_ite(c, r.get(1, UNDEF), r.get(2, UNDEF))
        if f.k == "func":
            fi, bound, clo = self.funcs[f]
            if fi.is_stub() if fi.name != "<lambda>" else False:
                args = ([bound] if bound is not None else []) + list(pos)
                return self.opaque_call("f." + fi.name, args, kw, st, e, stmt)
            if not self.can_inline(f):
                args = ([bound] if bound is not None and bound.k != "cls" else []) + list(pos)
                return self.opaque_call("f." + fi.name, args, kw, st, e, stmt)
            return self.inline(f, pos, kw, st, e)
        if f.k == "cls":
            v = mk("new", (vv.uid(), f.d), *([self.freeze(x, st) for x in pos] + [
                mk("op", "kw:" + k, self.freeze(kw[k], st)) for k in sorted(kw)]))
            if stmt:
                self.event(st, "do", "new:" + f.d.name, [self.freeze(v, st)], e)
            return v
        if f.k == "mod":
            return self.ext_call(f.d, pos, kw, st, e, stmt)
        if f.k == "op" and f.d == "type":
            return self.opaque_call("new:type", [f.a[0]] + list(pos), kw, st, e, stmt)
        return self.opaque_call("apply", [f] + list(pos), kw, st, e, stmt)

    def ext_call(self, n, pos, kw, st, e, stmt):
        short = n.split(".")[-1]
        if n in ("typing.cast", "cast") and len(pos) == 2:
            return pos[1]
        if n in ("os.environ.get", "os.getenv") and 1 <= len(pos) <= 2 and not kw:
            env = mk("mod", "os.environ")
            return mk_ite(op("in", self.freeze(pos[0], st), env), self.rd_item(env, pos[0], st),
                          pos[1] if len(pos) > 1 else NONE)
        if n == "warnings.warn":
            self.event(st, "warn", "warn", (), e)
            return NONE
        if n in ("copy.deepcopy", "copy.copy") and len(pos) >= 1:
            return mk("op", "copy", self.freeze(pos[0], st) if pos[0].k == "obj" else pos[0])
        if n == "isinstance" and len(pos) == 2:
            t = pos[1]
            ts = t.a if t.k == "tup" else (t,)
            x = self.freeze(pos[0], st)
            return mk_or(*[is_a(pos[0], q) or mk("op", "isinstance", x, self.freeze(q, st)) for q in ts])
        if n == "len" and len(pos) == 1:
            ks = self.known_seq(pos[0], st)
            if ks is not None:
                return const(len(ks))
            x = pos[0]
            if x.k == "call" and x.d[0] in ("m.keys", "m.items", "m.values"):
                x = x.a[0]
            return mk("call", ("len", ()), self.freeze(x, st))
        if n == "getattr" and len(pos) >= 2 and is_const(pos[1]) and pos[1].d[0] == "str":
            r = self.rd_attr(pos[0], cval(pos[1]), st)
            if len(pos) == 3:
                return mk("op", "default", self.freeze(r, st), self.freeze(pos[2], st))
            return r
        if n == "setattr" and len(pos) == 3:
            if is_const(pos[1]) and pos[1].d[0] == "str":
                self.wr_attr(pos[0], cval(pos[1]), pos[2], st)
            else:
                old = st.heap.get(pos[0], {}).get("[]", EMPTY)
                self.wr(st, pos[0], "[]", mk("op", "agg", old, mk_kv(self.freeze(pos[1], st), self.freeze(pos[2], st))))
            return NONE
        if n == "super":
            return mk("op", "super")
        if n == "type" and len(pos) == 1:
            t = self.typeof(pos[0])
            return mk("op", "type", self.freeze(pos[0], st))
        if n in ("dict", "collections.OrderedDict", "OrderedDict"):
            if not pos:
                o = self.alloc(st, "dict")
                for k in kw:
                    if k == "**":
                        self.mutate(st, o, "update", [kw[k]])
                    else:
                        self.wr_item(o, const(k), kw[k], st)
                return o
            kd = self.known_dict(pos[0], st)
            if kd is not None and len(pos) == 1:
                o = self.alloc(st, "dict")
                for k, v in kd:
                    self.wr_item(o, k, v, st)
                for k in kw:
                    self.wr_item(o, const(k), kw[k], st)
                return o
            ks = self.known_seq(pos[0], st) if len(pos) == 1 else None
            if ks is not None:
                ps = [self.known_seq(x, st) for x in ks]
                if all(x is not None and len(x) == 2 for x in ps):
                    o = self.alloc(st, "dict")
                    for k, v in ps:
                        self.wr_item(o, k, v, st)
                    for k in kw:
                        self.wr_item(o, const(k), kw[k], st)
                    return o
            if len(pos) == 1 and not kw:
                return mk("op", "copy", self.freeze(pos[0], st))
        if n in ("list", "set") and not kw:
            if not pos:
                return self.alloc(st, n)
            if len(pos) == 1 and n == "list":
                x = pos[0]
                if x.k == "call" and x.d[0] == "m.keys":
                    x = x.a[0]
                ks = self.known_seq(x, st)
                if ks is not None:
                    return self.mk_list(st, ks)
                return mk("op", "copy", self.freeze(x, st)) if x.k in ("obj",) else mk("op", "copy", x)
        if n in ("collections.defaultdict", "collections.Counter", "collections.deque"):
            o = self.alloc(st, "dict" if "Counter" in n or "dict" in n else "list")
            if len(pos) > (1 if "defaultdict" in n else 0):
                self.mutate(st, o, "update", [pos[-1]])
                if "defaultdict" in n:
                    # existing content is given a default: later updates rely on it
                    self.event(st, "do", "defaultdict", [self.freeze(x, st) for x in pos[:2]], e)
            return o
        if n in ("min", "max") and len(pos) == 1 and not kw:
            ks = self.known_seq(pos[0], st)
            if ks and len(ks) >= 2:
                return op(n, *[self.freeze(x, st) for x in ks])
        if n in ("min", "max") and len(pos) >= 2 and not kw:
            return op(n, *[self.freeze(x, st) for x in pos])
        if n in ("any", "all") and len(pos) == 1 and not kw:
            x = pos[0]
            ks = self.known_seq(x, st)
            if ks is not None:
                cs = [self.truth(y, st) for y in ks]
                return mk_or(*cs) if n == "any" else mk_and(*cs)
            fz = self.freeze(x, st)
            if fz.k == "op" and fz.d == "comp" and len(fz.a) == 1:
                e = fz.a[0]
                # any(x for .. if c) == any(c and x);  all(x for .. if c) == all(not c or x)
                c = self.flatcond(e, n == "any")
            else:
                c = truth(self.elem(fz, st))
            return mk_any(c) if n == "any" else mk_all(c)
        if n == "sum" and len(pos) == 1 and not kw:
            x = self.freeze(pos[0], st)
            if not (x.k == "op" and x.d == "comp"):
                x = mk("op", "comp", self.elem(pos[0], st))
            return mk("call", ("sum", ()), x)
        if n in ("numpy.power", "pow") and len(pos) == 2 and not kw:
            return op("**", *[self.freeze(x, st) for x in pos])
        if n == "bool" and len(pos) == 1:
            return truth(pos[0])
        if n == "range" and len(pos) == 2 and pos[0] is const(0) and not kw:
            pos = pos[1:]
        if n in ("set", "frozenset", "sorted") and len(pos) == 1 and pos[0].k == "call" and pos[0].d[0] == "m.keys":
            pos = [pos[0].a[0]]
        if n == "range" and not kw:
            return mk("call", ("range", ()), *[self.freeze(x, st) for x in pos])
        if n in ("enumerate", "zip") and not kw:
            return mk("call", (n, ()), *pos)
        if n == "functools.partial" and pos and pos[0].k == "func":
            pass
        if n in ("list", "tuple", "iter", "tqdm.tqdm", "tqdm") and len(pos) >= 1:
            ks = self.known_seq(pos[0], st)
            if ks is not None and n == "tuple":
                return mk("tup", None, *ks)
            if n == "tuple":
                return mk("op", "copy", self.freeze(pos[0], st))
            return mk("call", (n.split(".")[-1], ()), pos[0])
        if n.split(".")[0] in ("numpy", "np"):
            n = "np." + n.split(".", 1)[1]
        if n.split(".")[0] == "pandas":
            n = "pd." + n.split(".", 1)[1]
        return self.opaque_call(n, pos, kw, st, e, stmt)

    def flatcond(self, e, isany):
        if e is UNDEF:
            return FALSE if isany else TRUE
        if e.k == "ite":
            return mk_ite(e.a[0], self.flatcond(e.a[1], isany), self.flatcond(e.a[2], isany))
        return truth(e)

    # --------------------------------------------------------------- inlining
    def can_inline(self, f):
        fi, bound, clo = self.funcs[f]
        if fi.qual in self.opaque or fi.name in self.opaque:
            return False
        if len(self.frames) >= self.DEPTH:
            self.notes.add("depth " + fi.qual)
            return False
        if sum(1 for x in self.frames if x.fi.node is fi.node) >= 1:
            return False
        return True

    def inline(self, f, pos, kw, st, node):
        fi, bound, clo = self.funcs[f]
        self.called.add(fi.qual)
        n = fi.node
        a = n.args
        uid = vv.uid()
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        pos = list(pos)
        if bound is not None and fi.cls is not None and not fi.is_static:
            pos = [bound] + pos
        star = any(x.k == "op" and x.d == "star" for x in pos)
        cls = fi.cls or getattr(fi, "defcls", None)
        fr = Frame(fi, uid, len(st.guards), cls, None)
        if clo is not None:
            outer = next((x for x in reversed(self.frames) if x.uid == clo), None)
            fr.closure = (clo, outer.closure if outer else None)
            fr.selfv = None
        # defaults
        defaults = {}
        for p, d in zip(params[len(params) - len(a.defaults):], a.defaults):
            defaults[p] = d
        for p, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if d is not None:
                defaults[p] = d
        rest = list(pos)
        for i, p in enumerate(params):
            if rest:
                x = rest.pop(0)
                if x.k == "op" and x.d == "star":
                    env[p] = self.rd_item(x.a[0], const(0), st)
                    rest = [x] if i < len(params) - 1 else []
                else:
                    env[p] = x
            elif p in kw:
                env[p] = kw[p]
        kw2 = {k: v for k, v in kw.items() if k not in params}
        for p in [x.arg for x in a.kwonlyargs]:
            if p in kw2:
                env[p] = kw2.pop(p)
        if a.vararg is not None:
            env[a.vararg.arg] = mk("tup", None, *rest)
        if a.kwarg is not None:
            o = self.alloc(st, "dict")
            for k, v in kw2.items():
                if k == "**":
                    self.mutate(st, o, "update", [v])
                else:
                    self.wr_item(o, const(k), v, st)
            env[a.kwarg.arg] = o
        for p, d in defaults.items():
            if p not in env:
                if isinstance(d, ast.Constant):
                    env[p] = const(d.value)
                else:
                    self.frames.append(fr)
                    st.envs[uid] = {}
                    env[p] = self.ev(d, st)
                    self.frames.pop()
        for p in params:
            if p not in env:
                env[p] = mk("item", None, kw["**"], const(p)) if "**" in kw else UNDEF
        typed = []
        for p, an in [(x.arg, x.annotation) for x in a.posonlyargs + a.args]:
            v = env.get(p)
            if an is not None and v is not None and v.k in ("sym", "attr", "item", "elem", "call") and self.typeof(v) is None:
                t = self.ix.resolve_expr_class(fi.module, an)
                if t is not None:
                    typed.append((v, self.types.get(v, self)))
                    self.types[v] = t
        if fi.cls is not None and params and not fi.is_static:
            fr.selfv = env[params[0]]
        st.envs[uid] = env
        if fi.is_gen:
            fr.yields = self.alloc(st, "list")
        self.frames.append(fr)
        base_guards = st.guards
        loops_saved = fr.loops
        try:
            if isinstance(n, ast.Lambda):
                v = self.ev(n.body, st)
                if not st.dead:
                    st.guards = base_guards
                ret = v
                if fr.closure is None:
                    pass
                return ret
            self.block(n.body, st)
            alts = list(fr.returns)
            if not st.dead:
                alts.append((None, NONE, st.copy()))
            if not alts:
                st.dead = "raise"
                return UNDEF
            g, v, s = alts[-1]
            cur, val = s, v
            for g, v, s in reversed(alts[:-1]):
                c = mk_and(*g)
                cur = self.join(c, s, cur)
                val = mk_ite(c, v, val)
            cur.dead = None
            cur.guards = base_guards
            st.become(cur)
            if fi.is_gen:
                val = mk("op", "comp", self.content(fr.yields, st))
            return val
        finally:
            for v, t in typed:
                if t is self:
                    self.types.pop(v, None)
                else:
                    self.types[v] = t
            self.frames.pop()
            if not self.has_nested(n):
                st.envs.pop(uid, None)

    def content(self, o, st):
        fz = self.freeze(o, st)
        return fz

    def has_nested(self, n):
        r = getattr(n, "_nested", None)
        if r is None:
            r = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(n) if x is not n)
            n._nested = r
        return r

    # ------------------------------------------------------------------ entry
    def run(self, qual):
        r = self.ix.lookup(qual)
        if r is None:
            return None
        c, fi = r
        st = State()
        a = fi.node.args
        params = [x for x in a.posonlyargs + a.args]
        pos, kwargs = [], {}
        selfv = None
        i = 0
        for j, p in enumerate(params):
            if j == 0 and c is not None and not fi.is_static:
                if fi.is_class:
                    v = mk("cls", c)
                else:
                    v = mk("sym", "self")
                    self.types[v] = c
                selfv = v
                continue
            i += 1
            v = mk("sym", "arg%d" % i)
            t = self.ix.resolve_expr_class(fi.module, p.annotation) if p.annotation is not None else None
            if c is not None and p.arg in ("other", "other_profile") and t is None:
                t = c
            if t is not None and c is not None and t in self.ix.mro(c):
                t = c
            self.types[v] = t
            pos.append(v)
        for p in a.kwonlyargs:
            kwargs[p.arg] = mk("sym", "kw_" + p.arg)
        if a.vararg is not None:
            pos.append(mk("op", "star", mk("sym", "varargs")))
        if a.kwarg is not None:
            kwargs["**"] = mk("sym", "kwargs")
        f = self.mkfunc(fi, selfv, None)
        # a frame to hold module context
        ret = self.inline(f, pos, kwargs, st, fi.node)
        return Result(self, qual, fi, c, ret, st)


class Result:
    def __init__(self, it, qual, fi, cls, ret, st):
        self.it, self.qual, self.fi, self.cls, self.ret, self.st = it, qual, fi, cls, ret, st
        self.events = it.events
