"""Source index: parses every non-test module of the package and resolves names,
classes, method resolution order and attribute types.  Nothing is imported or run."""
import ast
import os

PKG = "dataprofiler"


def repo_root():
    return os.environ.get("VERIF_REPO", "/repo")


class FuncInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.parent = parent
        pre = cls.name + "." if cls else ""
        self.qual = module.name.split(".", 1)[-1] + ":" + pre + self.name
        self.is_static = self.is_class = self.is_prop = self.is_setter = False
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            t = ast.unparse(d)
            self.decorators.append(t)
            if t == "staticmethod":
                self.is_static = True
            elif t == "classmethod":
                self.is_class = True
            elif t in ("property", "abc.abstractproperty", "functools.cached_property"):
                self.is_prop = True
            elif t.endswith(".setter"):
                self.is_setter = True
        self.is_gen = any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)
        )

    @property
    def file(self):
        return self.module.relpath

    def loc(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)

    def is_stub(self):
        body = [
            s
            for s in self.node.body
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
            and not isinstance(s, ast.Pass)
            and not (isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant)
                     and all(isinstance(t, ast.Name) for t in s.targets))
        ]
        if not body:
            return True
        if len(body) == 1:
            s = body[0]
            if isinstance(s, ast.Pass):
                return True
            if isinstance(s, ast.Raise) and s.exc is not None:
                return "NotImplementedError" in ast.unparse(s.exc)
        return False


def walk_own(node):
    """Walk a function body without descending into nested functions/classes."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.assigns = {}
        self.base_exprs = node.bases
        self._mro = None
        self._attr_types = None
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(s, module, self)
                if f.is_setter:
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self.assigns[s.target.id] = s.value

    @property
    def qual(self):
        return self.module.name.split(".", 1)[-1] + ":" + self.name


class ModuleInfo:
    def __init__(self, name, path, relpath, tree, source):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.source = source
        self.classes = {}
        self.funcs = {}
        self.imports = {}
        self.assigns = {}
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._scan(tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = FuncInfo(s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        top = a.name.split(".")[0]
                        self.imports[top] = ("mod", top)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self.assigns[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, "handlers", []):
                    self._scan(h.body)
                self._scan(s.orelse)
                self._scan(getattr(s, "finalbody", []))


class Index:
    def __init__(self, root=None, transform=None):
        self.root = root or repo_root()
        self.modules = {}
        self.errors = []
        base = os.path.join(self.root, PKG)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ("tests", "__pycache__"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == "__init__":
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(p, encoding="utf-8") as fp:
                    src = fp.read()
                tree = ast.parse(src, p)
                if transform is not None:
                    tree = transform(name, tree)
                self.modules[name] = ModuleInfo(name, p, rel, tree, src)
        self.class_by_name = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.class_by_name.setdefault(c.name, c)

    # ---- name resolution -------------------------------------------------
    def resolve(self, module, name, seen=None):
        """Resolve a module-level name to ('class',C)|('func',F)|('mod',name)|
        ('ext',dotted)|('const',expr,module)|None."""
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.funcs:
            return ("func", module.funcs[name])
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                return ("mod", imp[1])
            _, base, attr = imp
            full = base + "." + attr
            if full in self.modules:
                return ("mod", full)
            if base in self.modules:
                r = self.resolve(self.modules[base], attr, seen)
                if r:
                    return r
            if base.split(".")[0] == PKG:
                return ("ext", full)
            return ("ext", full)
        if name in module.assigns:
            return ("const", module.assigns[name], module)
        return None

    def resolve_expr_class(self, module, expr):
        """Resolve an annotation/base expression to a ClassInfo if possible."""
        if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
            try:
                expr = ast.parse(expr.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(expr, ast.Name):
            r = self.resolve(module, expr.id)
            if r and r[0] == "class":
                return r[1]
            if r and r[0] == "const" and isinstance(r[1], ast.Call) and ast.unparse(r[1].func).endswith("TypeVar"):
                for kw in r[1].keywords:
                    if kw.arg == "bound":
                        return self.resolve_expr_class(r[2], kw.value)
            return None
        if isinstance(expr, ast.Attribute):
            v = expr.value
            if isinstance(v, ast.Name):
                r = self.resolve(module, v.id)
                if r and r[0] == "mod" and r[1] in self.modules:
                    rr = self.resolve(self.modules[r[1]], expr.attr)
                    if rr and rr[0] == "class":
                        return rr[1]
            return None
        if isinstance(expr, ast.Subscript):
            head = ast.unparse(expr.value)
            if head.split(".")[-1] == "Optional":
                return self.resolve_expr_class(module, expr.slice)
            if head.split(".")[-1] in ("Type", "type", "List", "list", "dict", "Dict",
                                       "Union", "tuple", "Tuple", "Callable", "set",
                                       "Sequence", "Iterable", "Generator", "Iterator"):
                return None
            return self.resolve_expr_class(module, expr.value)
        if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.BitOr):
            a = self.resolve_expr_class(module, expr.left)
            b = self.resolve_expr_class(module, expr.right)
            if a and not b and ast.unparse(expr.right) == "None":
                return a
            if b and not a and ast.unparse(expr.left) == "None":
                return b
        return None

    def mro(self, c):
        if c._mro is not None:
            return c._mro
        c._mro = [c]
        seqs = []
        bases = []
        for b in c.base_exprs:
            bc = self.resolve_expr_class(c.module, b)
            if bc is not None and bc is not c:
                bases.append(bc)
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s[0] is h:
                    del s[0]
                elif h in s:
                    s.remove(h)
        c._mro = out
        return out

    def find_method(self, c, name, after=None):
        chain = self.mro(c)
        if after is not None and after in chain:
            chain = chain[chain.index(after) + 1 :]
        for k in chain:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
            if name in k.methods:
                return None
        return None

    def find_class_assign(self, c, name):
        for k in self.mro(c):
            if name in k.assigns:
                return k.assigns[name], k
        return None

    def is_subclass(self, c, name):
        return any(k.name == name for k in self.mro(c))

    def subclasses(self, name):
        return [
            c
            for m in self.modules.values()
            for c in m.classes.values()
            if self.is_subclass(c, name)
        ]

    def attr_types(self, c):
        """attribute name -> ClassInfo for attributes assigned a constructor call or
        annotated with a repository class."""
        if c._attr_types is not None:
            return c._attr_types
        out = {}
        c._attr_types = out
        for k in reversed(self.mro(c)):
            for f in k.methods.values():
                for n in walk_own(f.node):
                    tgt = val = ann = None
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    elif isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    if (
                        isinstance(tgt, ast.Attribute)
                        and isinstance(tgt.value, ast.Name)
                        and tgt.value.id == "self"
                    ):
                        t = None
                        if ann is not None:
                            t = self.resolve_expr_class(k.module, ann)
                        if t is None and isinstance(val, ast.Call):
                            t = self.resolve_expr_class(k.module, val.func)
                        if t is not None:
                            out[tgt.attr] = t
                        elif ann is not None:
                            out.pop(tgt.attr, None)
        return out

    def functions(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f

    def lookup(self, qual):
        """'profilers.int_column_profile:IntColumn.update' -> (ClassInfo|None, FuncInfo);
        methods are resolved through the MRO of the named class."""
        mod, name = qual.split(":")
        m = self.modules.get(PKG + "." + mod) or self.modules.get(mod)
        if m is None:
            return None
        if "." in name:
            cn, fn = name.split(".", 1)
            c = m.classes.get(cn)
            if c is None:
                return None
            setter = fn.endswith("=")
            fn = fn.rstrip("=")
            f = self.find_setter(c, fn) if setter else self.find_method(c, fn)
            return (c, f) if f else None
        f = m.funcs.get(name)
        return (None, f) if f else None
