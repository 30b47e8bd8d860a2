"""Ownership analysis: which objects a function may change in place, and which objects of
its arguments its result may share.

An object is named by an access path: a parameter, global or allocation site, followed by
attribute names and element selectors.  The analysis is flow-sensitive inside a function
(strong updates of single named objects, branches joined, loops run to a second pass) and uses
a summary per function and receiver class at calls.  Nothing is executed."""
import ast

MAXPATH = 5
MUTATORS = {
    "append": "add", "extend": "addall", "insert": "add", "add": "add", "update": "addall", "setdefault": "set",
    "pop": "take", "popitem": "take", "remove": "", "discard": "", "clear": "", "sort": "", "reverse": "",
    "difference_update": "", "intersection_update": "", "symmetric_difference_update": "", "appendleft": "add",
    "popleft": "take", "rotate": "", "fill": "", "itemset": "", "move_to_end": "", "subtract": "", "put": "",
    "__setitem__": "add", "__delitem__": "", "merge": "", "subtract_inplace": "", "writelines": "", "update_wrapper": "",
}
READS = {"get", "items", "values", "keys", "copy", "most_common", "union", "intersection", "difference", "index", "count"}
FRESH_CALLS = {"len", "sum", "min", "max", "abs", "round", "str", "int", "float", "bool", "repr", "hash", "isinstance",
               "issubclass", "range", "print", "format", "type", "id", "any", "all", "callable", "hasattr", "ord", "chr",
               "open", "divmod", "pow", "super", "frozenset"}
SHALLOW = {"list", "dict", "set", "tuple", "sorted", "reversed", "iter", "OrderedDict", "Counter", "deque", "filter",
           "enumerate", "zip", "map", "chain", "defaultdict"}
COMMON = set(MUTATORS) | READS | {"split", "join", "strip", "lower", "upper", "replace", "format", "startswith", "endswith",
                                  "encode", "decode", "read", "write", "close", "seek", "tell", "sum", "mean", "astype",
                                  "apply", "drop", "isnull", "sample", "tolist", "fit", "predict", "compile", "call",
                                  "load_weights", "save_weights", "summary", "compute", "result", "reset_state"}


class Sum:
    def __init__(self):
        self.mut = {}       # object changed in place: path -> location text
        self.reb = {}       # attribute bound anew: path of the attribute -> location text
        self.ret = frozenset()
        self.heap = {}      # (path, field) -> origins, for what callers can see
        self.types = {}
        self.raises = {}    # (location, exception) -> parameter objects changed before it
        self.dirty = frozenset()  # changed when it returns

    def key(self):
        return (frozenset(self.mut), frozenset(self.reb), self.ret, frozenset(self.heap.items()), frozenset(self.raises.items()))


EMPTY = Sum()


class Own:
    def __init__(self, ix):
        self.ix = ix
        self.memo = {}
        self.active = {}
        self.byname = {}
        for m in ix.modules.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.byname.setdefault(n, []).append((c, f))
        self.kinds = attr_kinds(ix)
        self.depth = 0
        self.elems = {}

    def elem_types(self, c):
        """attribute -> class of the elements of the container it holds"""
        if c in self.elems:
            return self.elems[c]
        out = self.elems[c] = {}
        for k in reversed(self.ix.mro(c)):
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and \
                            isinstance(n.annotation, ast.Subscript):
                        sl = n.annotation.slice
                        t = self.ix.resolve_expr_class(k.module, sl.elts[-1] if isinstance(sl, ast.Tuple) else sl)
                        if t is not None:
                            out[n.target.attr] = t
        return out

    def summary(self, f, cls=None):
        k = (f.qual, f.is_setter, cls.qual if cls else None)
        if k in self.memo:
            return self.memo[k]
        if k in self.active:
            self.active[k][1] = True
            return self.active[k][0]
        if self.depth > 40:
            return EMPTY
        self.active[k] = [EMPTY, False]
        self.depth += 1
        try:
            for _ in range(3):
                s = Fn(self, f, cls).run()
                old, rec = self.active[k]
                if not rec or s.key() == old.key():
                    break
                self.active[k] = [s, False]
        finally:
            self.depth -= 1
            del self.active[k]
        self.memo[k] = s
        return s


def attr_kinds(ix):
    """attribute name -> set of container kinds it is ever bound to ('list', 'dict', 'set', 'array', 'num', 'obj')"""
    out = {}
    for f in ix.functions():
        for n in ast.walk(f.node):
            tgts, val, ann = [], None, None
            if isinstance(n, ast.Assign):
                tgts, val = n.targets, n.value
            elif isinstance(n, ast.AnnAssign):
                tgts, val, ann = [n.target], n.value, n.annotation
            for t in tgts:
                if isinstance(t, ast.Attribute):
                    k = expr_kind(val) if val is not None else None
                    if k:
                        out.setdefault(t.attr, set()).add(k)
                    if ann is not None:
                        for kk in ann_kinds(ann):
                            out.setdefault(t.attr, set()).add(kk)
    return out


def ann_kinds(a):
    t = ast.unparse(a).strip("'\"")
    for w, k in (("list", "list"), ("List", "list"), ("dict", "dict"), ("Dict", "dict"), ("set[", "set"), ("Set", "set"),
                 ("ndarray", "array"), ("Counter", "dict"), ("DataFrame", "array")):
        if t.startswith(w) or ("| " + w) in t or ("Optional[" + w) in t:
            yield k


def expr_kind(e):
    if isinstance(e, (ast.List, ast.ListComp)):
        return "list"
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return "dict"
    if isinstance(e, (ast.Set, ast.SetComp)):
        return "set"
    if isinstance(e, ast.Constant):
        return "num" if e.value is not None else None
    if isinstance(e, ast.Call):
        n = ast.unparse(e.func).split(".")[-1]
        if n in ("list", "sorted"):
            return "list"
        if n in ("dict", "defaultdict", "Counter", "OrderedDict"):
            return "dict"
        if n == "set":
            return "set"
        if n in ("array", "zeros", "ones", "empty", "full", "concatenate", "DataFrame", "Series"):
            return "array"
    return None


def short(p):
    r = p[0]
    s = {"P": "arg%s", "N": "new%s", "G": "%s"}[r[0]] % (r[1],)
    for f in p[1:]:
        s += f if f[0] == "[" else "." + f
    return s


class Fn:
    """one pass over a function body"""

    def __init__(self, own, f, cls):
        self.own, self.ix, self.f, self.cls = own, own.ix, f, cls
        self.mod = f.module
        self.mut = {}
        self.reb = {}
        self.heap = {}
        self.types = {}
        self.rets = set()
        self.env = {}
        self.dirty = frozenset()
        self.raises = {}
        self.out_dirty = frozenset()
        self.nested = {}
        self.inl = 0
        self.site = 0
        self.sites = {}

    # ---- objects
    def new(self, node, cls=None, tag=""):
        o = (("N", "%s.%d.%d%s" % (self.f.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag)),)
        if cls is not None:
            self.types[o] = cls
        return o

    def ptype(self, o):
        if o in self.types:
            return self.types[o]
        t = None
        if len(o) > 1:
            b = self.ptype(o[:-1])
            if b is not None and o[-1][0] != "[":
                t = self.ix.attr_types(b).get(o[-1])
            elif o[-1][0] == "[" and len(o) > 2 and o[-2][0] != "[":
                b = self.ptype(o[:-2])
                if b is not None:
                    t = self.own.elem_types(b).get(o[-2])
        self.types[o] = t
        return t

    def load1(self, o, f):
        k = (o, f)
        if k in self.heap:
            return self.heap[k]
        out = set()
        if f[0] == "[":
            if f == "[]":
                for (b, ff), v in self.heap.items():
                    if b == o and ff[0] == "[":
                        out |= v
            elif (o, "[]") in self.heap:
                out |= self.heap[(o, "[]")]
        if (o, "*") in self.heap:
            for b in self.heap[(o, "*")]:
                if b != o:
                    out |= self.load1(b, f)
        elif o[0][0] != "N":
            if len(o) < MAXPATH:
                out.add(o + (f,))
        return frozenset(out)

    def load(self, v, f):
        out = set()
        for o in v:
            out |= self.load1(o, f)
        return frozenset(out)

    def touch(self, v, node, why=""):
        for o in v:
            if o[0][0] != "N":
                self.mut.setdefault(o, "%s:%s %s%s" % (self.f.file, getattr(node, "lineno", "?"), self.f.qual, why))
                self.dirty |= {o}

    def store(self, v, f, x, node, weak=False):
        for o in v:
            if o[0][0] != "N":
                w = "%s:%s %s" % (self.f.file, getattr(node, "lineno", "?"), self.f.qual)
                if f[0] == "[":
                    self.mut.setdefault(o, w)
                    self.dirty |= {o}
                else:
                    self.reb.setdefault(o + (f,), w)
                    self.dirty |= {o + (f,)}
            k = (o, f)
            if weak or len(v) > 1 or f == "[]":
                self.heap[k] = (self.heap[k] if k in self.heap else self.load1(o, f)) | x
            else:
                self.heap[k] = x

    # ---- running
    def run(self):
        a = self.f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        for i, n in enumerate(names):
            o = (("P", n),)
            self.env[n] = frozenset([o])
            if i == 0 and self.cls is not None and not self.f.is_static:
                self.types[o] = self.cls
            elif anns.get(n) is not None:
                t = self.ix.resolve_expr_class(self.mod, anns[n])
                if t is not None:
                    # an operand annotated with the class that defines the operator is of the receiver's class
                    self.types[o] = self.cls if self.cls is not None and t in self.ix.mro(self.cls) else t
        for x in (a.vararg, a.kwarg):
            if x is not None:
                # the container itself is fresh, its elements are the caller's
                n = x.arg
                o = self.new(self.f.node, tag="*" + n)
                self.heap[(o, "[]")] = frozenset([(("P", n), "[]")])
                self.env[n] = frozenset([o])
        if self.f.is_class and names:
            self.env[names[0]] = frozenset()
        if not self.block(self.f.node.body):
            self.out_dirty |= self.dirty
        s = Sum()
        s.raises = dict(self.raises)
        s.dirty = self.out_dirty
        s.mut = dict(self.mut)
        s.reb = dict(self.reb)
        s.ret = frozenset(self.rets)
        # keep what a caller can reach
        reach = set(s.ret)
        work = list(reach)
        keep = {}
        byb = {}
        for (b, f), v in self.heap.items():
            byb.setdefault(b, []).append((f, v))
            if b[0][0] != "N":
                keep[(b, f)] = v
                work += [o for o in v]
        seen = set()
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            for f, v in byb.get(o, ()):
                keep[(o, f)] = v
                work += list(v)
        s.heap = keep
        s.types = {o: t for o, t in self.types.items() if t is not None and o[0][0] == "N" and o in seen}
        return s

    def snap(self):
        return dict(self.env), dict(self.heap), self.dirty

    def back(self, s):
        self.env, self.heap, self.dirty = dict(s[0]), dict(s[1]), s[2]

    def join(self, s):
        env, heap, dirty = s
        self.dirty |= dirty
        for n, v in env.items():
            self.env[n] = self.env.get(n, frozenset()) | v
        for k, v in heap.items():
            if k in self.heap:
                self.heap[k] = self.heap[k] | v
            elif k[0][0][0] == "N":
                self.heap[k] = v
            else:
                self.heap[k] = v | frozenset([k[0] + (k[1],)])
        for k in list(self.heap):
            if k not in heap and k[0][0][0] != "N" and k[1][0] != "[" and k[1] != "*":
                self.heap[k] = self.heap[k] | frozenset([k[0] + (k[1],)])

    def add_raise(self, loc, name, dirty):
        k = (loc, name)
        self.raises[k] = self.raises.get(k, frozenset()) | dirty

    def block(self, body):
        for s in body:
            if self.stmt(s):
                return True
        return False

    def alts(self, *bodies):
        """each body from the same state; -> True when none falls through"""
        pre = self.snap()
        outs = []
        for b in bodies:
            self.back(pre)
            if not self.block(b):
                outs.append(self.snap())
        if not outs:
            return True
        self.back(outs[0])
        for o in outs[1:]:
            self.join(o)
        return False

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.aug(s)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.rets |= self.ev(s.value)
            self.out_dirty |= self.dirty
            return True
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            self.add_raise("%s:%s %s" % (self.f.file, s.lineno, self.f.qual), ast.unparse(x) if x is not None else "", self.dirty)
            return True
        elif isinstance(s, (ast.Break, ast.Continue)):
            return True
        elif isinstance(s, ast.If):
            self.ev(s.test)
            return self.alts(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            for _ in range(2):
                pre = self.snap()
                self.bind_iter(s.target, s.iter, it)
                self.block(s.body)
                self.join(pre)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                pre = self.snap()
                self.ev(s.test)
                self.block(s.body)
                self.join(pre)
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for w in s.items:
                v = self.ev(w.context_expr)
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, v, w.context_expr)
            return self.block(s.body)
        elif isinstance(s, ast.Try):
            pre = self.snap()
            before = self.raises
            self.raises = {}
            done = self.block(s.body)
            inner, self.raises = self.raises, before
            caught = set()
            for h in s.handlers:
                caught |= {"*"} if h.type is None else {ast.unparse(x) for x in (
                    h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
            for (loc, n), d in inner.items():
                if not (caught & {"*", "Exception", "BaseException", n}):
                    self.add_raise(loc, n, d)
            if not done:
                done = self.block(s.orelse)
            outs = [] if done else [self.snap()]
            mid = self.snap()
            for h in s.handlers:
                self.back(mid)
                self.join(pre)
                if h.name:
                    self.env[h.name] = frozenset()
                if not self.block(h.body):
                    outs.append(self.snap())
            if outs:
                self.back(outs[0])
                for o in outs[1:]:
                    self.join(o)
            if self.block(s.finalbody):
                return True
            return not outs
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.touch(self.ev(t.value), t)
                elif isinstance(t, ast.Attribute):
                    v = self.ev(t.value)
                    self.store(v, t.attr, frozenset(), t)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested[s.name] = s
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        return False

    def bind_iter(self, t, itx, it):
        el = self.load(it, "[]")
        if isinstance(itx, ast.Call) and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2:
            n = itx.func.attr if isinstance(itx.func, ast.Attribute) else getattr(itx.func, "id", "")
            if n in ("items", "enumerate"):
                self.assign(t.elts[0], frozenset(), None)
                self.assign(t.elts[1], el, None)
                return
        if isinstance(itx, ast.Call) and getattr(itx.func, "id", "") == "zip" and isinstance(t, (ast.Tuple, ast.List)) \
                and len(t.elts) == len(itx.args):
            for x, a in zip(t.elts, itx.args):
                self.assign(x, self.load(self.ev(a), "[]"), None)
            return
        if self.is_dict(itx):
            el = frozenset()
        self.assign(t, el, None)

    def is_dict(self, e):
        """iterating gives keys, which are immutable"""
        if isinstance(e, ast.Attribute):
            return self.own.kinds.get(e.attr) == {"dict"}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            return e.func.attr == "keys"
        return False

    def assign(self, t, v, vx):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(vx, (ast.Tuple, ast.List)) and len(vx.elts) == len(t.elts):
                vals = [self.ev(e) for e in vx.elts]
            else:
                vals = []
                for i in range(len(t.elts)):
                    vals.append(self.load(v, "[%d]" % i))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            done = False
            for o in b:
                c = self.ptype(o)
                st = self.ix.find_setter(c, t.attr) if c is not None else None
                if st is not None:
                    self.apply(st, c, [frozenset([o]), v], {}, t)
                    done = True
            if not done:
                self.store(b, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.store(b, self.sub(t.slice), v, t)

    def sub(self, sl):
        if isinstance(sl, ast.Constant) and isinstance(sl.value, (str, int)):
            return "[%r]" % sl.value if isinstance(sl.value, str) else "[%d]" % sl.value
        return "[]"

    def aug(self, s):
        x = self.ev(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            v = self.env.get(t.id, frozenset())
            if isinstance(s.value, (ast.List, ast.ListComp, ast.Set, ast.Dict)) or self.container(v, s.value):
                self.touch(v, t, " in place")
                self.env[t.id] = v
            else:
                self.env[t.id] = frozenset()
            return
        load = ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()) if isinstance(t, ast.Attribute)
                                 else ast.Subscript(t.value, t.slice, ast.Load()), t)
        cur = self.ev(load)
        cont = isinstance(s.value, (ast.List, ast.ListComp, ast.Set, ast.Dict)) or self.container(cur, s.value)
        if cont:
            self.touch(cur, t, " in place")
        b = self.ev(t.value)
        f = t.attr if isinstance(t, ast.Attribute) else self.sub(t.slice)
        self.store(b, f, cur if cont else frozenset(), t)

    def container(self, v, rhs=None):
        """are these objects known to be changed in place by an augmented assignment"""
        ks = set()
        for o in v:
            if len(o) > 1 and o[-1][0] != "[":
                ks |= self.own.kinds.get(o[-1], set())
        if isinstance(rhs, ast.Attribute):
            ks |= self.own.kinds.get(rhs.attr, set())
        ks.discard("num")
        return bool(ks)

    # ---- expressions
    def ev(self, e):
        if e is None:
            return frozenset()
        if isinstance(e, ast.Name):
            return self.env.get(e.id, frozenset())
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.FormattedValue)):
            return frozenset()
        if isinstance(e, ast.Attribute):
            if e.attr == "__dict__":
                return self.ev(e.value)
            b = self.ev(e.value)
            out = set()
            for o in b:
                c = self.ptype(o)
                m = self.ix.find_method(c, e.attr) if c is not None else None
                if m is not None and m.is_prop:
                    out |= self.apply(m, c, [frozenset([o])], {}, e)
                elif m is None:
                    out |= self.load1(o, e.attr)
            return frozenset(out)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            self.ev(e.slice)
            if isinstance(e.slice, ast.Slice):
                o = self.new(e)
                self.heap[(o, "[]")] = self.load(b, "[]")
                return frozenset([o])
            return self.load(b, self.sub(e.slice))
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                self.ev(x)
            return frozenset()
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            for x in e.values:
                out |= self.ev(x)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            o = self.new(e)
            for i, x in enumerate(e.elts):
                if isinstance(x, ast.Starred):
                    self.heap[(o, "[]")] = self.heap.get((o, "[]"), frozenset()) | self.load(self.ev(x.value), "[]")
                else:
                    self.heap[(o, "[%d]" % i)] = self.ev(x)
            return frozenset([o])
        if isinstance(e, ast.Dict):
            o = self.new(e)
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                if k is None:
                    self.heap[(o, "*")] = self.heap.get((o, "*"), frozenset()) | v
                else:
                    f = self.sub(k)
                    self.heap[(o, f)] = v | (self.heap.get((o, f), frozenset()) if f == "[]" else frozenset())
            return frozenset([o])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env = dict(self.env)
            for g in e.generators:
                self.bind_iter(g.target, g.iter, self.ev(g.iter))
                for c in g.ifs:
                    self.ev(c)
            if isinstance(e, ast.DictComp):
                self.ev(e.key)
                v = self.ev(e.value)
            else:
                v = self.ev(e.elt)
            self.env = env
            o = self.new(e)
            self.heap[(o, "[]")] = v
            return frozenset([o])
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, (ast.Await, ast.YieldFrom)):
            return self.ev(e.value)
        if isinstance(e, ast.Yield):
            if e.value is not None:
                o = (("N", self.f.qual + ".yield"),)
                self.heap[(o, "[]")] = self.heap.get((o, "[]"), frozenset()) | self.ev(e.value)
                self.rets.add(o)
            return frozenset()
        if isinstance(e, ast.Lambda):
            return frozenset()
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.ev(e.left), self.ev(e.right)
            out = set()
            for o in a:
                c = self.ptype(o)
                m = self.ix.find_method(c, "__add__") if c is not None else None
                if m is not None:
                    out |= self.apply(m, c, [frozenset([o]), b], {}, e)
            el = self.load(a, "[]") | self.load(b, "[]")
            if not out and el:
                n = self.new(e)
                self.heap[(n, "[]")] = el
                out.add(n)
            return frozenset(out)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return frozenset()

    # ---- calls
    def call(self, e):
        fx = e.func
        pos = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                pos.append(self.load(v, "[]"))
            else:
                pos.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is not None:
                kw[k.arg] = v
            else:
                # **mapping: its entries under their own names
                for (b, f), x in list(self.heap.items()):
                    if b in v and f.startswith("['"):
                        kw.setdefault(f[2:-2], x)
        if isinstance(fx, ast.Name):
            n = fx.id
            if n in self.nested:
                return self.inline(self.nested[n], pos, kw)
            if n == "cls" and self.f.is_class and self.cls is not None:
                return self.construct(self.cls, pos, kw, e)
            if n in self.env and n not in ("dict", "list", "set"):
                return frozenset()
            r = self.ix.resolve(self.mod, n)
            if r and r[0] == "func":
                return self.apply(r[1], None, pos, kw, e)
            if r and r[0] == "class":
                return self.construct(r[1], pos, kw, e)
            return self.ext(n if not r else r[1] if isinstance(r[1], str) else n, pos, kw, e)
        if isinstance(fx, ast.Attribute):
            # super().m(...)
            if isinstance(fx.value, ast.Call) and getattr(fx.value.func, "id", "") == "super" and self.f.cls is not None:
                c = self.cls or self.f.cls
                m = self.ix.find_method(c, fx.attr, self.f.cls)
                if m is not None:
                    me = next(iter(self.f.node.args.args), None)
                    recv = self.env.get(me.arg, frozenset()) if me else frozenset()
                    return self.apply(m, c, ([] if m.is_static else [recv]) + pos, kw, e)
                return frozenset()
            if fx.attr == "__class__":
                cs = {self.ptype(o) for o in self.ev(fx.value)} - {None}
                if len(cs) == 1:
                    return self.construct(cs.pop(), pos, kw, e)
                return frozenset()
            d = dotted(fx)
            if d and d.split(".")[0] not in self.env:
                r = self.static(d)
                if r is not None:
                    kind, x, c = r
                    if kind == "func":
                        if x.cls is not None and x.is_class:
                            return self.apply(x, c, [frozenset()] + pos, kw, e)
                        return self.apply(x, self.recv_cls(x, c, pos), pos, kw, e)
                    if kind == "class":
                        return self.construct(x, pos, kw, e)
                return self.ext(d, pos, kw, e)
            b = self.ev(fx.value)
            return self.method(b, fx, pos, kw, e)
        if isinstance(fx, ast.Call) and getattr(fx.func, "id", "") == "type" and len(fx.args) == 1:
            cs = {self.ptype(o) for o in self.ev(fx.args[0])} - {None}
            if len(cs) == 1:
                return self.construct(cs.pop(), pos, kw, e)
        self.ev(fx)
        return frozenset()

    def recv_cls(self, f, c, pos):
        """Class.method(obj, ...): the class of obj where known"""
        if f.cls is None or f.is_static:
            return c
        for o in (pos[0] if pos else ()):
            t = self.ptype(o)
            if t is not None and f.cls in self.ix.mro(t):
                return t
        return c

    def static(self, d):
        """dotted name -> ('func', FuncInfo, cls) | ('class', ClassInfo, None) | None"""
        parts = d.split(".")
        r = self.ix.resolve(self.mod, parts[0])
        for p in parts[1:]:
            if r is None:
                return None
            if r[0] == "mod" and r[1] in self.ix.modules:
                r = self.ix.resolve(self.ix.modules[r[1]], p)
            elif r[0] == "class":
                m = self.ix.find_method(r[1], p)
                r = ("meth", m, r[1]) if m is not None else None
            else:
                return None
        if r is None:
            return None
        if r[0] == "func":
            return "func", r[1], None
        if r[0] == "meth":
            return "func", r[1], r[2]
        if r[0] == "class":
            return "class", r[1], None
        return None

    def construct(self, c, pos, kw, e):
        o = self.new(e, c)
        for k in [k for k in self.heap if k[0] == o]:
            del self.heap[k]
        m = self.ix.find_method(c, "__init__")
        nw = self.ix.find_method(c, "__new__")
        if nw is not None and m is None:
            return self.apply(nw, c, [frozenset()] + pos, kw, e) or frozenset([o])
        if m is not None:
            self.apply(m, c, [frozenset([o])] + pos, kw, e)
        return frozenset([o])

    def method(self, b, fx, pos, kw, e):
        name = fx.attr
        out = set()
        rest = set()
        for o in b:
            c = self.ptype(o)
            m = self.ix.find_method(c, name) if c is not None else None
            if m is not None:
                out |= self.apply(m, c, ([] if m.is_static else [frozenset([o])]) + pos, kw, e)
            elif c is None:
                rest.add(o)
        if not rest:
            if not b and name in SHALLOW | {"copy"}:
                return frozenset([self.new(e)])
            return frozenset(out)
        rest = frozenset(rest)
        cands = self.own.byname.get(name, ())
        if name in COMMON or not cands or len(cands) > 12:
            return frozenset(out) | self.lib_method(rest, name, pos, kw, e)
        for c, m in cands:
            if m.is_stub():
                continue
            out |= self.apply(m, c, ([] if m.is_static else [rest]) + pos, kw, e)
        return frozenset(out)

    def lib_method(self, b, name, pos, kw, e):
        if any(k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True for k in e.keywords):
            self.touch(b, e, " in place")
            return frozenset()
        if name in MUTATORS:
            self.touch(b, e, " ." + name)
            how = MUTATORS[name]
            if how == "add":
                for a in pos:
                    self.store(b, "[]", a, e, weak=True)
            elif how == "addall":
                for a in pos:
                    for o in a:
                        fs = [f for (x, f) in list(self.heap) if x == o and f[0] == "["]
                        if name == "update" and o[0][0] == "N" and "[]" not in fs and (o, "*") not in self.heap:
                            for f in fs:
                                self.store(b, f, self.heap[(o, f)], e, weak=True)
                        else:
                            self.store(b, "[]", self.load1(o, "[]"), e, weak=True)
                for k, v in kw.items():
                    self.store(b, "['%s']" % k, v, e, weak=True)
            elif how == "set":
                if len(pos) > 1:
                    self.store(b, self.sub(e.args[0]), pos[1], e, weak=True)
                return self.load(b, self.sub(e.args[0]))
            elif how == "take":
                return self.load(b, "[]")
            return frozenset()
        if name == "get":
            r = self.load(b, self.sub(e.args[0]) if e.args else "[]")
            for a in pos[1:]:
                r |= a
            return r
        if name in ("items", "values", "__iter__"):
            return b
        if name in ("keys",):
            return frozenset()
        if name in ("copy", "union", "difference", "intersection", "most_common", "tolist"):
            if name == "copy" and any(isinstance(a, ast.Constant) for a in e.args):
                pass
            o = self.new(e)
            self.heap[(o, "[]")] = self.load(b, "[]")
            return frozenset([o])
        if name in ("view", "reshape", "ravel", "__enter__"):
            return b
        return frozenset()

    def ext(self, d, pos, kw, e):
        n = d.split(".")[-1]
        if d in ("copy.deepcopy", "deepcopy"):
            o = self.new(e)
            for x in (pos[0] if pos else ()):
                t = self.ptype(x)
                if t is not None:
                    self.types[o] = t
            return frozenset([o])
        if d in ("copy.copy",):
            o = self.new(e)
            if pos:
                self.heap[(o, "*")] = pos[0]
                for x in pos[0]:
                    t = self.ptype(x)
                    if t is not None:
                        self.types[o] = t
            return frozenset([o])
        if n == "setattr" and len(pos) == 3:
            f = e.args[1].value if isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str) else "?"
            self.store(pos[0], f, pos[2], e, weak=f == "?")
            return frozenset()
        if n == "getattr" and len(pos) >= 2:
            f = e.args[1].value if isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str) else "?"
            r = self.load(pos[0], f)
            for a in pos[2:]:
                r |= a
            return r
        if n == "delattr" and len(pos) == 2:
            self.touch(pos[0], e)
            return frozenset()
        if n in ("next",):
            r = self.load(pos[0], "[]") if pos else frozenset()
            return r | (pos[1] if len(pos) > 1 else frozenset())
        if n == "vars" and pos:
            return pos[0]
        if n in ("dict", "OrderedDict") and len(e.args) == 1 and isinstance(e.args[0], (ast.List, ast.Tuple)) \
                and all(isinstance(x, (ast.Tuple, ast.List)) and len(x.elts) == 2 for x in e.args[0].elts):
            o = self.new(e)
            for x in e.args[0].elts:
                f = self.sub(x.elts[0])
                v = self.ev(x.elts[1])
                self.heap[(o, f)] = v | (self.heap.get((o, f), frozenset()) if f == "[]" else frozenset())
            return frozenset([o])
        if n in SHALLOW:
            if n == "defaultdict":
                pos = pos[1:]
            o = self.new(e)
            acc = frozenset()
            for a in pos:
                acc |= self.load(a, "[]")
            if n in ("dict", "defaultdict", "list", "set", "tuple", "OrderedDict", "Counter") and acc:
                self.heap[(o, "*")] = frozenset().union(*pos) if pos else frozenset()
            if acc:
                self.heap[(o, "[]")] = acc
            for k, v in kw.items():
                self.heap[(o, "['%s']" % k)] = v
            return frozenset([o])
        if n in ("asarray", "asanyarray", "cast"):
            return pos[-1] if n == "cast" and pos else (pos[0] if pos else frozenset())
        if n in ("shuffle",) and pos and not d.startswith("np.random.Generator.perm"):
            self.touch(pos[0], e)
            return frozenset()
        if n in ("copyto", "put", "place", "fill_diagonal") and pos and d.startswith(("np.", "numpy.")):
            self.touch(pos[0], e)
            return frozenset()
        o = kw.get("out")
        if o and d.startswith(("np.", "numpy.")):
            self.touch(o, e)
            return o
        if n in ("heappush", "heappop", "heapify", "insort") and pos:
            self.touch(pos[0], e)
        return frozenset()

    def inline(self, node, pos, kw):
        """a nested function sees and changes the variables around it"""
        if self.inl > 3:
            return frozenset()
        self.inl += 1
        env, rets = dict(self.env), self.rets
        self.rets = set()
        names = [a.arg for a in node.args.posonlyargs + node.args.args]
        for n, v in zip(names, pos):
            self.env[n] = v
        for n in names[len(pos):]:
            self.env[n] = kw.get(n, frozenset())
        self.block(node.body)
        r = frozenset(self.rets)
        self.env, self.rets = env, rets
        self.inl -= 1
        return r

    def apply(self, f, cls, pos, kw, node):
        if f.is_stub():
            return frozenset()
        s = self.own.summary(f, cls if cls is not None else f.cls)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bind = {}
        for n, v in zip(names, pos):
            bind[n] = v
        extra = frozenset()
        for v in pos[len(names):]:
            extra |= v
        bind.update({k: v for k, v in kw.items()})
        if a.vararg and extra:
            bind[a.vararg.arg] = extra
        tag = "@%s.%s" % (getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

        memo = {}

        def sub(o):
            """callee path -> our origins"""
            if o in memo:
                return memo[o]
            r = o[0]
            if r[0] == "P":
                v = bind.get(r[1], frozenset())
                if a.vararg and r[1] == a.vararg.arg and len(o) > 1:
                    # element of *args
                    w = v
                    rest = o[2:]
                else:
                    w, rest = v, o[1:]
                for x in rest:
                    w = self.load(w, x)
                memo[o] = w
            elif r[0] == "N":
                n = r[1]
                if len(n) < 200:
                    n = n + tag
                memo[o] = frozenset([(("N", n),) + o[1:]])
            else:
                memo[o] = frozenset([o])
            return memo[o]

        # resolve everything against the state before the call
        for o in s.mut:
            sub(o)
        for o in s.reb:
            sub(o[:-1])
        for (b, fl), v in s.heap.items():
            sub(b)
            for o in v:
                sub(o)
        for o in s.ret:
            sub(o)
        def trans(paths):
            out = set()
            for o in paths:
                if o in s.reb:
                    out |= {x + (o[-1],) for x in memo[o[:-1]] if x[0][0] != "N"}
                if o in s.mut:
                    out |= {x for x in memo[o] if x[0][0] != "N"}
            return frozenset(out)

        for (loc, n), d in s.raises.items():
            self.add_raise(loc, n, self.dirty | trans(d))
        self.dirty |= trans(s.dirty)
        for o, w in s.reb.items():
            for x in memo[o[:-1]]:
                if x[0][0] != "N" and len(x) < MAXPATH:
                    self.reb.setdefault(x + (o[-1],), w)
        for o, w in s.mut.items():
            for x in memo[o]:
                if x[0][0] != "N":
                    self.mut.setdefault(x, w)
        for o, t in s.types.items():
            for x in sub(o):
                self.types.setdefault(x, t)
        for (b, fl), v in s.heap.items():
            if b[0][0] == "N":
                for x in memo[b]:
                    self.heap[(x, fl)] = frozenset().union(*[memo[o] for o in v]) if v else frozenset()
        for (b, fl), v in s.heap.items():
            if b[0][0] != "N":
                tgt = memo[b]
                val = frozenset().union(*[memo[o] for o in v]) if v else frozenset()
                weak = len(tgt) > 1 or fl == "[]"
                for x in tgt:
                    k = (x, fl)
                    if weak:
                        self.heap[k] = (self.heap[k] if k in self.heap else self.load1(x, fl)) | val
                    else:
                        self.heap[k] = val
        out = set()
        for o in s.ret:
            out |= memo[o]
        return frozenset(out)


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None
