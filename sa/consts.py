"""Named constants of modules and classes, in a form that does not depend on how they are written."""
import ast

SKIP = {"logger", "__all__", "__version__", "__doc__", "__slots__"}
NOVALUE = ("getLogger", "get_child_logger", "TypeVar", "NewType")


class Open(Exception):
    """not a constant this analysis can write down"""


def norm(ix, mod, e, depth=0):
    if depth > 12:
        raise Open
    rec = lambda x: norm(ix, mod, x, depth + 1)
    if isinstance(e, ast.Constant):
        v = e.value
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            v = float(v)
        return repr(v)
    if isinstance(e, (ast.UnaryOp, ast.BinOp)):
        n = number(ix, mod, e, depth)
        if n is not None:
            return repr(float(n))
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = rec(e.left), rec(e.right)
            if a[0] == "[" and b[0] == "[":
                return "[" + ", ".join(x for x in (a[1:-1], b[1:-1]) if x) + "]"
            if a[0] in "'\"" and b[0] in "'\"":
                return repr(ast.literal_eval(a) + ast.literal_eval(b))
        raise Open
    if isinstance(e, (ast.List, ast.Tuple)):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Open
        return "[" + ", ".join(rec(x) for x in e.elts) + "]"
    if isinstance(e, ast.Set):
        return "{" + ", ".join(sorted({rec(x) for x in e.elts})) + "}"
    if isinstance(e, ast.Dict):
        if any(k is None for k in e.keys):
            raise Open
        return "{" + ", ".join(sorted("%s: %s" % (rec(k), rec(v)) for k, v in zip(e.keys, e.values))) + "}"
    if isinstance(e, ast.Name):
        r = ix.resolve(mod, e.id)
        if r is None:
            return e.id
        if r[0] == "const":
            return norm(ix, r[2], r[1], depth + 1)
        if r[0] in ("class", "func"):
            return r[1].qual
        return str(r[1])
    if isinstance(e, ast.Attribute):
        return rec(e.value) + "." + e.attr
    if isinstance(e, ast.Subscript):
        raise Open
    if isinstance(e, ast.Call):
        f = ast.unparse(e.func)
        if f.split(".")[-1] in NOVALUE:
            raise Open
        if f == "dict" and not e.args and all(k.arg for k in e.keywords):
            return "{" + ", ".join(sorted("%r: %s" % (k.arg, rec(k.value)) for k in e.keywords)) + "}"
        if f in ("list", "tuple", "set", "frozenset", "dict") and not e.keywords:
            if not e.args:
                return "{}" if f in ("set", "frozenset", "dict") else "[]"
            if len(e.args) == 1:
                x = rec(e.args[0])
                if f in ("list", "tuple") and x[0] == "[":
                    return x
                if f in ("set", "frozenset") and isinstance(e.args[0], (ast.List, ast.Tuple, ast.Set)):
                    return "{" + ", ".join(sorted({rec(y) for y in e.args[0].elts})) + "}"
                if f == "dict" and x[0] == "{":
                    return x
            raise Open
        if f in ("re.compile",):
            return "%s(%s)" % (f, ", ".join([rec(a) for a in e.args] + sorted("%s=%s" % (k.arg, rec(k.value)) for k in e.keywords)))
    raise Open


def number(ix, mod, e, depth=0):
    if depth > 12:
        return None
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp):
        x = number(ix, mod, e.operand, depth + 1)
        return None if x is None else -x if isinstance(e.op, ast.USub) else x if isinstance(e.op, ast.UAdd) else None
    if isinstance(e, ast.BinOp):
        a, b = number(ix, mod, e.left, depth + 1), number(ix, mod, e.right, depth + 1)
        if a is None or b is None:
            return None
        try:
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.Div):
                return a / b
            if isinstance(e.op, ast.Pow) and abs(b) < 64:
                return a ** b
        except (ArithmeticError, ValueError):
            return None
    if isinstance(e, ast.Name):
        r = ix.resolve(mod, e.id)
        if r and r[0] == "const":
            return number(ix, r[2], r[1], depth + 1)
    return None


# asked only whether they contain something
UNORDERED = {"_allowed_external_data_types", "_day_suffixes"}


def constants(ix):
    """{"module:NAME" or "module:Class.NAME": (normal form, location)}; a class has the constants it inherits"""
    out = {}

    def put(key, name, mod, e):
        if name in SKIP or name.startswith("__"):
            return
        try:
            x = norm(ix, mod, e)
            if name in UNORDERED and x[0] == "[":
                x = "{" + ", ".join(sorted(x[1:-1].split(", "))) + "}"
            out[key] = x, "%s:%d" % (mod.relpath, e.lineno)
        except Open:
            pass
    for m in ix.modules.values():
        mn = m.name.split(".", 1)[-1]
        if mn in ("_version", "dp_logging", "version"):
            continue
        for n, e in m.assigns.items():
            put(mn + ":" + n, n, m, e)
        for c in m.classes.values():
            seen = set()
            for k in ix.mro(c):
                for n, e in k.assigns.items():
                    if n not in seen:
                        put(c.qual + "." + n, n, k.module, e)
                seen.update(k.assigns)
                seen.update(k.methods)
    return out
