"""Rules about what has to be undone: opened handles, temporarily changed profiles; and about where
random numbers come from."""
import ast

from .index import walk_own
from .rules import Result, rule

OPEN = {"open", "TextIOWrapper", "ZipFile", "TarFile", "NamedTemporaryFile", "TemporaryFile", "fdopen", "BufferedReader",
        "GzipFile"}
SAFE_CALLS = {"isinstance", "len", "str", "int", "bool", "type", "list", "dict", "tuple", "set", "cast", "getattr", "hasattr",
              "repr", "id"}
WRAP = {"closing", "enter_context", "cast", "push", "callback", "suppress"}
UNDO = {"_remove_data_labelers": "_restore_data_labelers"}


def callee(c):
    f = c.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""


def parents(root):
    out = {}
    for n in ast.walk(root):
        for ch in ast.iter_child_nodes(n):
            out[ch] = n
    return out


def blocks(stmt):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(stmt, f, None)
        if isinstance(b, list):
            yield b
    for h in getattr(stmt, "handlers", ()):
        yield h.body


def cannot_raise(s):
    """plain bookkeeping: assignments and tests of names, attributes and constants"""
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
        return True
    if isinstance(s, (ast.Raise, ast.Assert, ast.Delete, ast.Return, ast.With, ast.For, ast.While, ast.Try)):
        return False
    for n in ast.walk(s):
        if isinstance(n, ast.Call) and callee(n) not in SAFE_CALLS:
            return False
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod)):
            return False
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            return False
        if isinstance(n, (ast.Raise, ast.Return, ast.Await, ast.Yield)):
            return False
    return True


def has(nodes, pred):
    return any(pred(n) for b in nodes for n in ast.walk(b))


class Site:
    """one acquisition: where it happens and what counts as giving it back"""

    def __init__(self, fn, call, released):
        self.fn, self.call, self.released = fn, call, released  # released(list of stmts) -> bool
        self.par = parents(fn.node)

    def stmt(self, n):
        while n in self.par and not isinstance(n, ast.stmt):
            n = self.par[n]
        return n

    def block_of(self, s):
        p = self.par.get(s)
        while p is not None:
            for b in blocks(p):
                if s in b:
                    return p, b
            s, p = p, self.par.get(p)
        return None, None

    def covered(self, s, passed_on=lambda s: False):
        """every way on from statement s gives the thing back"""
        cur = s
        while cur is not None and cur is not self.fn.node:
            p, b = self.block_of(cur)
            if b is None:
                return False
            if isinstance(p, ast.Try) and (b is p.body or b is p.orelse or any(h.body is b for h in p.handlers)):
                if p.finalbody and self.released(p.finalbody):
                    return True
                if b is p.body and self.caught(p) and (self.released(p.orelse) or self.ends(p, passed_on)):
                    return True
            i = b.index(cur)
            for nx in b[i + 1:]:
                if passed_on(nx):
                    return True
                if isinstance(nx, ast.Try):
                    if nx.finalbody and self.released(nx.finalbody):
                        return True
                    if self.caught(nx) and (self.released(nx.orelse) or self.ends(nx, passed_on)):
                        return True
                if isinstance(nx, (ast.Expr, ast.Assign)) and self.released([nx]):
                    return True
                if not cannot_raise(nx):
                    return False
            if isinstance(p, (ast.For, ast.While)):
                return self.covered(p, passed_on)
            cur = p
        return False

    def caught(self, t):
        for h in t.handlers:
            n = ast.unparse(h.type) if h.type is not None else "BaseException"
            if n in ("BaseException", "Exception") and self.released(h.body):
                return True
        return False

    def ends(self, t, passed_on):
        p, b = self.block_of(t)
        rest = b[b.index(t) + 1:] if b else []
        for nx in rest:
            if passed_on(nx) or self.released([nx]):
                return True
            if not cannot_raise(nx):
                return False
        return False


def all_functions(ix):
    from .index import FuncInfo
    for m in ix.modules.values():
        if m.name.endswith("_version"):
            continue
        todo = list(m.funcs.values())
        for c in m.classes.values():
            todo += list(c.methods.values()) + list(c.setters.values())
        for f in todo:
            yield f
            for n in ast.walk(f.node):
                if n is not f.node and isinstance(n, ast.FunctionDef):
                    yield FuncInfo(n, f.module, f.cls)


def releaser(ix, fn, name, verbs, depth=0):
    """does a list of statements give back what `name` refers to?"""
    def ok(stmts):
        names = {name}
        for b in stmts:
            for n in ast.walk(b):
                if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Call)):
                    v = n.value
                    if isinstance(v, ast.Call) and callee(v) == "cast" and len(v.args) == 2:
                        v = v.args[1]
                    if isinstance(v, ast.Name) and v.id in names:
                        names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for b in stmts:
            for n in ast.walk(b):
                if not isinstance(n, ast.Call):
                    continue
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in verbs and \
                        (isinstance(f.value, ast.Name) and f.value.id in names or ast.unparse(f.value) == name):
                    return True
                args = [a.id for a in n.args if isinstance(a, ast.Name)]
                if depth < 2 and any(a in names for a in args):
                    g = helper(ix, fn, f)
                    if g is not None:
                        ps = [a.arg for a in g.node.args.args]
                        if g.cls and not g.is_static:
                            ps = ps[1:]
                        for i, a in enumerate(n.args):
                            if isinstance(a, ast.Name) and a.id in names and i < len(ps) and \
                                    releaser(ix, g, ps[i], verbs, depth + 1)(g.node.body):
                                return True
        return False
    return ok


def helper(ix, fn, f):
    if isinstance(f, ast.Name):
        g = fn.module.funcs.get(f.id)
        if g is None:
            r = ix.resolve(fn.module, f.id)
            g = r if r.__class__.__name__ == "FuncInfo" else None
        return g
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and fn.cls:
        return ix.find_method(fn.cls, f.attr)
    return None


@rule
def handles_released(run, prop):
    """every opened handle is closed, or detached, on every way out, or handed to one that does"""
    ix = run.ix
    r = Result(floor=30)
    factories = set()
    for _ in range(3):
        grown = False
        r.instances, r.violations = 0, []
        for fn in all_functions(ix):
            par = parents(fn.node)
            for c in walk_own(fn.node):
                if not isinstance(c, ast.Call):
                    continue
                n = callee(c)
                made = n in OPEN and not (n == "open" and isinstance(c.func, ast.Attribute)
                                          and ast.unparse(c.func.value) not in ("io", "gzip", "codecs", "bz2", "lzma"))
                if n == "FileOrBufferHandler":
                    r.instances += 1
                    made = False
                    if not isinstance(par.get(c), (ast.withitem, ast.Return)):
                        made = False
                entered = n == "__enter__"
                if not made and not entered and (n, fn.module.name) not in factories:
                    continue
                r.instances += n != "FileOrBufferHandler"
                verbs = ("detach",) if n == "TextIOWrapper" else ("close", "__exit__", "detach")
                why = judge(ix, fn, c, par, verbs, factories)
                if why == "factory":
                    k = (fn.name, fn.module.name)
                    if k not in factories:
                        factories.add(k)
                        grown = True
                    why = None
                if why:
                    r.bad("%s %s" % (fn.qual, n), "%s:%d\n  %s in %s is not given back on every way out: %s"
                          % (fn.module.relpath, c.lineno, ast.unparse(c)[:80], fn.qual, why))
        if not grown:
            break
    return r


def judge(ix, fn, c, par, verbs, factories):
    n = c
    while True:
        p = par.get(n)
        if isinstance(p, ast.withitem):
            return None
        if isinstance(p, ast.Call) and n is not p.func and callee(p) in WRAP | OPEN:
            if callee(p) in ("enter_context", "push", "callback"):
                return None
            n = p
            continue
        if isinstance(p, (ast.IfExp, ast.NamedExpr, ast.BoolOp, ast.Starred)) and not (
                isinstance(p, ast.IfExp) and n is p.test):
            if isinstance(p, ast.NamedExpr):
                return bound(ix, fn, p, [p.target], par, verbs)
            n = p
            continue
        break
    if callee(c) == "__enter__":
        x = ast.unparse(c.func.value)
        s = Site(fn, c, releaser(ix, fn, x, ("__exit__", "close")))
        return None if s.covered(s.stmt(c)) else "entered by hand, left only on some paths"
    if isinstance(p, ast.Return) or isinstance(p, (ast.Yield,)):
        return "factory"
    if isinstance(p, ast.Assign):
        return bound(ix, fn, c, p.targets, par, verbs)
    if isinstance(p, ast.AnnAssign):
        return bound(ix, fn, c, [p.target], par, verbs)
    if isinstance(p, ast.Call):
        return "passed on without anyone closing it"
    return "never bound to a name"


def bound(ix, fn, c, targets, par, verbs):
    for t in targets:
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and fn.cls:
            for m in ("__exit__", "close", "__del__"):
                g = ix.find_method(fn.cls, m)
                if g and has(g.node.body, lambda n: isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                             and n.func.attr in verbs):
                    return None
            return "kept as .%s, which no __exit__ or close releases" % t.attr
        if isinstance(t, ast.Name):
            x = t.id
            s = Site(fn, c, releaser(ix, fn, x, verbs))

            def passed_on(st):
                if isinstance(st, ast.With):
                    return any(x in [k.id for k in ast.walk(i.context_expr) if isinstance(k, ast.Name)] for i in st.items)
                return False
            if s.covered(s.stmt(c), passed_on):
                return None
            return "no finally or with releases `%s` (%s)" % (x, "/".join(verbs))
    return "bound to something that cannot be followed"


@rule
def restore_on_failure(run, prop):
    """a labeler taken out of a profile is put back on every way out"""
    ix = run.ix
    r = Result(floor=1)
    for fn in all_functions(ix):
        for c in walk_own(fn.node):
            if not isinstance(c, ast.Call) or callee(c) not in UNDO or not isinstance(c.func, ast.Attribute):
                continue
            r.instances += 1
            undo = UNDO[callee(c)]
            par = parents(fn.node)
            recv = ast.unparse(c.func.value)
            over = None
            n = c
            while n in par:
                n = par[n]
                gens = [(g.target, g.iter) for g in n.generators] if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) \
                    else [(n.target, n.iter)] if isinstance(n, ast.For) else []
                for t, it in gens:
                    if ast.unparse(t) == recv:
                        over = it
            iters = {ast.unparse(over)} if over is not None else set()
            for a in walk_own(fn.node):
                if isinstance(a, ast.Assign) and isinstance(a.value, (ast.Name, ast.Call)) and iters:
                    v = a.value
                    if isinstance(v, ast.Call):
                        if callee(v) not in ("list", "tuple") or len(v.args) != 1:
                            continue
                        v = v.args[0]
                    if ast.unparse(v) in iters:
                        iters |= {ast.unparse(t) for t in a.targets}
                    elif any(ast.unparse(t) in iters for t in a.targets):
                        iters.add(ast.unparse(v))

            def back(stmts):
                for b in stmts:
                    for k in ast.walk(b):
                        if over is None and isinstance(k, ast.Call) and callee(k) == undo and \
                                isinstance(k.func, ast.Attribute) and ast.unparse(k.func.value) == recv:
                            return True
                        if over is not None and isinstance(k, ast.For) and any(
                                ast.unparse(z) in iters for z in ast.walk(k.iter)):
                            if has(k.body, lambda z: isinstance(z, ast.Call) and callee(z) == undo):
                                return True
                        if isinstance(k, ast.Call) and isinstance(k.func, (ast.Name, ast.Attribute)):
                            g = helper(ix, fn, k.func)
                            if g and g is not fn and g.name != undo and has(
                                    g.node.body, lambda z: isinstance(z, ast.Call) and callee(z) == undo):
                                return True
                return False

            st = Site(fn, c, back)
            s = st.stmt(c)
            while over is not None and isinstance(par.get(s), (ast.For, ast.While)):
                s = par[s]
            if not st.covered(s):
                r.bad("%s %s" % (fn.qual, callee(c)),
                      "%s:%d\n  %s takes the labelers out of %s and does not put them back on every way out"
                      % (fn.module.relpath, c.lineno, fn.qual, recv if over is None else "each of " + ast.unparse(over)))
    return r


# ------------------------------------------------------------------------------------------ random numbers

DRAW = {"random", "integers", "choice", "shuffle", "permutation", "permuted", "sample", "randint", "randrange", "uniform",
        "normal", "choices", "rand", "randn", "seed", "getrandbits", "bytes", "standard_normal", "random_sample"}
ENTROPY = {"os.urandom", "uuid.uuid4", "uuid.uuid1", "secrets.token_bytes", "secrets.choice", "secrets.randbelow",
           "random.SystemRandom"}
SCOPE = ("profilers.", "data_readers.", "validators.", "rng_utils")


@rule
def rng_discipline(run, prop):
    """random choices while reading, profiling or merging come from the seeded generator, made when needed"""
    ix = run.ix
    r = Result(floor=8)
    maker = ix.modules.get("dataprofiler.rng_utils")
    makers = set(maker.funcs) if maker else set()
    if not makers:
        r.bad("no generator", "rng_utils defines no generator")
    for f in (maker.funcs.values() if maker else ()):
        for d in f.decorators:
            if "cache" in d:
                r.bad("rng_utils:%s cached" % f.name, "%s\n  the generator is kept between calls, so a seed set later is ignored" % f.loc())
    for m in ix.modules.values():
        mn = m.name.split(".", 1)[-1]
        if not mn.startswith(SCOPE):
            continue
        mods = {a for a, (k, *_rest) in m.imports.items() if k == "mod"}

        def source(c):
            """what a call draws from: 'good', 'bad', or None when it draws nothing"""
            t = ast.unparse(c.func)
            if t in ENTROPY:
                return "bad"
            if callee(c) in makers:
                return "make"
            head = t.split(".")[0]
            imp = m.imports.get(head)
            full = t
            if imp:
                base = ".".join(str(z) for z in imp[1:] if z)
                full = base + t[len(head):]
            if full.startswith("numpy.random."):
                return "make" if mn == "rng_utils" and full.endswith("default_rng") else "bad"
            if full.startswith("random."):
                return "bad"
            return None

        def visit(f, body, where):
            local, attrs = {}, {}
            for n in body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call):
                    s = source(n.value)
                    if s:
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            local[ast.unparse(t)] = s
            params = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs} if f else set()
            for n in body:
                if not isinstance(n, ast.Call):
                    continue
                s = source(n)
                if s == "bad":
                    r.instances += 1
                    r.bad("%s %s" % (owner(ix, f) if f else where, ast.unparse(n.func)),
                          "%s:%d\n  %s draws from %s, which the seed does not govern"
                          % (m.relpath, n.lineno, where, ast.unparse(n.func)))
                    continue
                if s == "make":
                    r.instances += 1
                    if f is None:
                        r.bad("%s module level" % where, "%s:%d\n  generator made at import time: a seed set later is ignored"
                              % (m.relpath, n.lineno))
                    continue
                if isinstance(n.func, ast.Attribute) and n.func.attr == "sample":
                    r.instances += 1
                    rs = [k.value for k in n.keywords if k.arg == "random_state"]
                    if not rs and ast.unparse(n.func.value) not in local and not (
                            isinstance(n.func.value, ast.Name) and n.func.value.id in params):
                        r.bad("%s .sample" % where, "%s:%d\n  %s samples without the seeded generator"
                              % (m.relpath, n.lineno, where))
                    for v in rs:
                        ok = isinstance(v, ast.Call) and source(v) == "make" or ast.unparse(v) in local and local[ast.unparse(v)] == "make" \
                            or isinstance(v, ast.Name) and v.id in params or isinstance(v, ast.Constant) and isinstance(v.value, int) \
                            or isinstance(v, ast.Attribute)
                        if not ok:
                            r.bad("%s .sample" % where, "%s:%d\n  %s samples with random_state=%s, not the seeded generator"
                                  % (m.relpath, n.lineno, where, ast.unparse(v)))

        for f in list(m.funcs.values()) + [g for c in m.classes.values() for g in list(c.methods.values()) + list(c.setters.values())]:
            visit(f, [n for n in ast.walk(f.node) if n is not f.node and not in_defaults(f.node, n)], f.qual)
            for d in f.node.args.defaults + [k for k in f.node.args.kw_defaults if k]:
                visit(None, list(ast.walk(d)), f.qual + " default")
        top = []
        for s in m.tree.body:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                top += list(ast.walk(s))
            elif isinstance(s, ast.ClassDef):
                for k in s.body:
                    if not isinstance(k, ast.FunctionDef):
                        top += list(ast.walk(k))
        visit(None, top, mn)
    return r


def owner(ix, f, depth=0):
    """the class a draw belongs to; for a module-level helper, the classes that call it"""
    if f.cls:
        return f.cls.qual
    out = set()
    for g in all_functions(ix):
        if g.node is not f.node and depth < 3 and any(
                isinstance(n, ast.Call) and callee(n) == f.name for n in walk_own(g.node)):
            out.add(owner(ix, g, depth + 1))
    return ",".join(sorted(out)) or f.qual


def in_defaults(f, n):
    for d in f.args.defaults + [k for k in f.args.kw_defaults if k]:
        if any(x is n for x in ast.walk(d)):
            return True
    return False
