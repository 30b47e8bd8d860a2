"""Behaviour-preserving source rewrites, used to measure false alarms (development only;
no registered check reads this file).  Each rewrite takes a module tree and returns one."""
import ast
import copy

R = {}


def reg(f):
    R[f.__name__] = f
    return f


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.depth = 0

    def fresh(self, p="_tmp"):
        self.n += 1
        return "%s%d" % (p, self.n)


def blocks(node):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(node, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield f, b


def funcs(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def rewrite_blocks(tree, fn):
    """fn(list of stmts, enclosing function) -> list of stmts; inside functions only"""
    for f in list(funcs(tree)):
        stack = [f]
        while stack:
            n = stack.pop()
            for name, b in blocks(n):
                nb = fn(b, f)
                setattr(n, name, nb)
                for s in nb:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        stack.append(s)
            for h in getattr(n, "handlers", []):
                stack.append(h)
    ast.fix_missing_locations(tree)
    return tree


def neg(t):
    return ast.UnaryOp(ast.Not(), t)


@reg
def invert_if(tree):
    def fn(b, f):
        for s in b:
            if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
                s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
        return b
    return rewrite_blocks(tree, fn)


@reg
def noop_statement(tree):
    for f in funcs(tree):
        i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(i, ast.parse("_unused = None").body[0])
    ast.fix_missing_locations(tree)
    return tree


@reg
def aug_to_assign(tree):
    class T(Base):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
            if isinstance(n.target, ast.Attribute):
                l = copy.deepcopy(n.target)
                l.ctx = ast.Load()
                return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def assign_to_aug(tree):
    class T(Base):
        def visit_Assign(self, n):
            if len(n.targets) == 1 and isinstance(n.value, ast.BinOp) and isinstance(n.targets[0], (ast.Name, ast.Attribute)) and ast.unparse(n.value.left) == ast.unparse(n.targets[0]):
                return ast.AugAssign(n.targets[0], n.value.op, n.value.right)
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def flip_compare(tree):
    class T(Base):
        M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in self.M:
                return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def not_compare(tree):
    class T(Base):
        M = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
             ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

        def visit_If(self, n):
            self.generic_visit(n)
            t = n.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in self.M:
                n.test = neg(ast.Compare(t.left, [self.M[type(t.ops[0])]()], t.comparators))
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def swap_commutative(tree):
    class T(Base):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mult) or (isinstance(n.op, ast.Add) and not any(
                    isinstance(x, (ast.List, ast.JoinedStr, ast.Call, ast.Tuple)) or (isinstance(x, ast.Constant) and isinstance(x.value, str))
                    for x in ast.walk(n))):
                n.left, n.right = n.right, n.left
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def temp_for_args(tree):
    """hoist call arguments / operands of an assignment or return into a temporary"""
    cnt = [0]

    def fn(b, f):
        out = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign, ast.Expr)) and v is not None:
                if isinstance(v, ast.BinOp) and not isinstance(v.right, (ast.Constant, ast.Name)) and isinstance(v.left, (ast.Name, ast.Attribute, ast.Constant)):
                    cnt[0] += 1
                    nm = "_t%d" % cnt[0]
                    out.append(ast.Assign([ast.Name(nm, ast.Store())], v.right))
                    v.right = ast.Name(nm, ast.Load())
                elif isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.BinOp, ast.Call, ast.Attribute)) and not isinstance(s, ast.Expr) and isinstance(v.func, (ast.Name, ast.Attribute)) and not (isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Call)):
                    cnt[0] += 1
                    nm = "_t%d" % cnt[0]
                    out.append(ast.Assign([ast.Name(nm, ast.Store())], v.args[0]))
                    v.args[0] = ast.Name(nm, ast.Load())
                elif isinstance(s, ast.Return) and not isinstance(v, (ast.Name, ast.Constant, ast.Yield)):
                    cnt[0] += 1
                    nm = "_t%d" % cnt[0]
                    out.append(ast.Assign([ast.Name(nm, ast.Store())], v))
                    s.value = ast.Name(nm, ast.Load())
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def temp_for_test(tree):
    cnt = [0]

    def fn(b, f):
        out = []
        for s in b:
            if isinstance(s, ast.If):
                cnt[0] += 1
                nm = "_c%d" % cnt[0]
                out.append(ast.Assign([ast.Name(nm, ast.Store())], s.test))
                s.test = ast.Name(nm, ast.Load())
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def ternary_to_if(tree):
    def fn(b, f):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                a, c = copy.deepcopy(s), copy.deepcopy(s)
                a.value, c.value = s.value.body, s.value.orelse
                s = ast.If(s.value.test, [a], [c])
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                s = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def if_to_ternary(tree):
    def fn(b, f):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and len(x.targets) == 1 == len(y.targets) and ast.unparse(x.targets[0]) == ast.unparse(y.targets[0]):
                    s = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                elif isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                    s = ast.Return(ast.IfExp(s.test, x.value, y.value))
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def default_then_if(tree):
    """if c: x=a else: x=b  ->  x=b; if c: x=a   (locals, constant b)"""
    def fn(b, f):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and len(x.targets) == 1 == len(y.targets) and isinstance(x.targets[0], ast.Name) and ast.unparse(x.targets[0]) == ast.unparse(y.targets[0]) and isinstance(y.value, ast.Constant):
                    nm = x.targets[0].id
                    if not any(isinstance(z, ast.Name) and z.id == nm for z in ast.walk(s.test)) and not any(isinstance(z, ast.Name) and z.id == nm for z in ast.walk(x.value)):
                        out.append(y)
                        s.orelse = []
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


@reg
def guard_clause(tree):
    """last `if c: BODY` of a function -> `if not c: return` + BODY; in loops: continue"""
    for f in funcs(tree):
        s = f.body[-1]
        if isinstance(s, ast.If) and not s.orelse and not ends(s.body):
            f.body[-1:] = [ast.If(neg(s.test), [ast.Return(None)], [])] + s.body
        for n in ast.walk(f):
            if isinstance(n, ast.For):
                s = n.body[-1]
                if isinstance(s, ast.If) and not s.orelse:
                    n.body[-1:] = [ast.If(neg(s.test), [ast.Continue()], [])] + s.body
    return ast.fix_missing_locations(tree)


@reg
def else_after_return(tree):
    """if c: ...return ; REST -> if c: ...return else: REST"""
    def fn(b, f):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                return b[: i + 1]
        return b
    return rewrite_blocks(tree, fn)


@reg
def drop_else_after_return(tree):
    def fn(b, f):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                r = s.orelse
                s.orelse = []
                out.extend(r)
        return out
    return rewrite_blocks(tree, fn)


@reg
def merge_nested_if(tree):
    class T(Base):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
                i = n.body[0]
                return ast.If(ast.BoolOp(ast.And(), [n.test, i.test]), i.body, [])
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def split_and(tree):
    class T(Base):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                vs = n.test.values
                r = ast.If(vs[-1], n.body, [])
                for v in reversed(vs[:-1]):
                    r = ast.If(v, [r], [])
                return r
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def de_morgan(tree):
    class T(Base):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            return n

        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = neg(ast.BoolOp(o, [neg(v) for v in n.test.values]))
            return n
    return ast.fix_missing_locations(T().visit(tree))


def comp_loop(target, comp, kind):
    if kind == "list":
        inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(target, ast.Load()), "append", ast.Load()), [comp.elt], []))
    elif kind == "set":
        inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(target, ast.Load()), "add", ast.Load()), [comp.elt], []))
    else:
        inner = ast.Assign([ast.Subscript(ast.Name(target, ast.Load()), comp.key, ast.Store())], comp.value)
    s = inner
    for g in reversed(comp.generators):
        for c in reversed(g.ifs):
            s = ast.If(c, [s], [])
        s = ast.For(g.target, g.iter, [s], [])
    return s


@reg
def comp_to_loop(tree):
    cnt = [0]

    def fn(b, f):
        out = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)):
                cnt[0] += 1
                nm = "_acc%d" % cnt[0]
                kind = {ast.ListComp: "list", ast.DictComp: "dict", ast.SetComp: "set"}[type(v)]
                init = ast.parse({"list": "x=[]", "dict": "x={}", "set": "x=set()"}[kind]).body[0].value
                out.append(ast.Assign([ast.Name(nm, ast.Store())], init))
                out.append(comp_loop(nm, v, kind))
                s.value = ast.Name(nm, ast.Load())
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def nested_comp_to_loop(tree):
    """comprehension used as call argument is built first"""
    cnt = [0]

    def fn(b, f):
        out = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)):
                cnt[0] += 1
                nm = "_acc%d" % cnt[0]
                out.append(ast.parse("%s = []" % nm).body[0])
                out.append(comp_loop(nm, v.args[0], "list"))
                v.args[0] = ast.Name(nm, ast.Load())
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def loop_to_comp(tree):
    """x = [] ; for t in it: [if c:] x.append(e)  ->  x = [e for ...]"""
    def fn(b, f):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if i + 1 < len(b) and isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(b[i + 1], ast.For) and not b[i + 1].orelse:
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                lp = b[i + 1]
                if isinstance(t, ast.Name) and s.value is not None and ast.unparse(s.value) in ("[]", "list()", "{}", "dict()") and len(lp.body) == 1:
                    x = lp.body[0]
                    ifs = []
                    while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                        ifs.append(x.test)
                        x = x.body[0]
                    comp = None
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func) == t.id + ".append":
                        comp = ast.ListComp(x.value.args[0], [ast.comprehension(lp.target, lp.iter, ifs, 0)])
                    elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and ast.unparse(x.targets[0].value) == t.id:
                        comp = ast.DictComp(x.targets[0].slice, x.value, [ast.comprehension(lp.target, lp.iter, ifs, 0)])
                    if comp is not None and not any(isinstance(z, ast.Name) and z.id == t.id for z in ast.walk(comp)):
                        out.append(ast.Assign([ast.Name(t.id, ast.Store())], comp))
                        i += 2
                        continue
            out.append(s)
            i += 1
        return out
    return rewrite_blocks(tree, fn)


@reg
def items_to_keys(tree):
    class T(Base):
        def visit_For(self, n):
            self.generic_visit(n)
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" and not n.iter.args and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and isinstance(n.iter.func.value, (ast.Name, ast.Attribute)):
                d = n.iter.func.value
                k, v = n.target.elts
                n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), ast.Name(k.id, ast.Load()), ast.Load())))
                n.target = k
                n.iter = d
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def enumerate_to_range(tree):
    class T(Base):
        def visit_For(self, n):
            self.generic_visit(n)
            if isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == "enumerate" and len(n.iter.args) == 1 and isinstance(n.iter.args[0], (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
                x = n.iter.args[0]
                i, v = n.target.elts
                n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(x), ast.Name(i.id, ast.Load()), ast.Load())))
                n.target = i
                n.iter = ast.parse("range(len(%s))" % ast.unparse(x), mode="eval").body
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def isinstance_split(tree):
    class T(Base):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and len(n.args[1].elts) > 1:
                return ast.BoolOp(ast.Or(), [ast.Call(n.func, [copy.deepcopy(n.args[0]), e], []) for e in n.args[1].elts])
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def in_to_or(tree):
    class T(Base):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and 1 < len(n.comparators[0].elts) < 6 and isinstance(n.left, (ast.Name, ast.Attribute)) and all(isinstance(e, ast.Constant) for e in n.comparators[0].elts):
                return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts])
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def len_truth(tree):
    class T(Base):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.left, ast.Call) and ast.unparse(n.left.func) == "len" and isinstance(n.comparators[0], ast.Constant):
                c, o = n.comparators[0].value, n.ops[0]
                if c == 0 and isinstance(o, ast.Gt):
                    return ast.Compare(n.left, [ast.GtE()], [ast.Constant(1)])
                if c == 0 and isinstance(o, ast.Eq):
                    return ast.Compare(n.left, [ast.Lt()], [ast.Constant(1)])
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def dict_literal_to_assign(tree):
    cnt = [0]

    def fn(b, f):
        out = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Dict) and v.keys and all(isinstance(k, ast.Constant) for k in v.keys):
                cnt[0] += 1
                nm = "_d%d" % cnt[0]
                out.append(ast.parse("%s = {}" % nm).body[0])
                for k, x in zip(v.keys, v.values):
                    out.append(ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), k, ast.Store())], x))
                s.value = ast.Name(nm, ast.Load())
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def get_default(tree):
    class T(Base):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 2 and isinstance(n.func.value, (ast.Name, ast.Attribute)) and isinstance(n.args[0], (ast.Name, ast.Constant, ast.Attribute)):
                d, k = n.func.value, n.args[0]
                return ast.IfExp(ast.Compare(copy.deepcopy(k), [ast.In()], [copy.deepcopy(d)]), ast.Subscript(copy.deepcopy(d), copy.deepcopy(k), ast.Load()), n.args[1])
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def attr_alias(tree):
    """name the attribute objects a function reads several times (self._x[...] reads)"""
    return tree


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def simple(s):
    """assignment without calls, to locals"""
    return isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and not any(
        isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(s.value))


@reg
def swap_statements(tree):
    def fn(b, f):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if simple(x) and simple(y):
                wx, wy = names(x, ast.Store), names(y, ast.Store)
                rx, ry = names(x.value, ast.Load), names(y.value, ast.Load)
                if not (wx & (wy | ry)) and not (wy & rx):
                    b[i], b[i + 1] = y, x
                    i += 2
                    continue
            i += 1
        return b
    return rewrite_blocks(tree, fn)


@reg
def swap_attr_statements(tree):
    """self.a = <const/name>; self.b = <const/name>"""
    def ok(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.value, (ast.Constant, ast.Name)) and ast.unparse(s.targets[0].value) == "self"

    def fn(b, f):
        i = 0
        while i + 1 < len(b):
            if ok(b[i]) and ok(b[i + 1]) and b[i].targets[0].attr != b[i + 1].targets[0].attr and b[i].targets[0].attr.startswith("_"):
                b[i], b[i + 1] = b[i + 1], b[i]
                i += 2
                continue
            i += 1
        return b
    return rewrite_blocks(tree, fn)


def has(ns, *types):
    """types in statements, not inside nested functions"""
    stack = list(ns)
    while stack:
        n = stack.pop()
        if isinstance(n, types):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def loopless_jump(ns):
    """break/continue outside an inner loop, return, yield"""
    stack = list(ns)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Break, ast.Continue, ast.Nonlocal, ast.Global)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def extract(tree, method, minlen=2):
    """move the body of compound statements / runs of statements into a new helper"""
    cnt = [0]

    def do(holder, cls):
        newdefs = []
        for f in [x for x in holder.body if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in f.decorator_list):
                continue
            params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
            if f.args.vararg:
                params.append(f.args.vararg.arg)
            if f.args.kwarg:
                params.append(f.args.kwarg.arg)
            alllocals = names(f, ast.Store) | set(params)
            if has(f.body, ast.FunctionDef, ast.Lambda, ast.Nonlocal, ast.Global):
                continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for x in ast.walk(f)):
                continue
            body = f.body
            start = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            # choose a window in the middle of the body
            n = len(body) - start
            if n < 3:
                # try inner block of first compound statement
                tgt = None
                for s in body[start:]:
                    if isinstance(s, (ast.If, ast.For)) and len(s.body) >= minlen:
                        tgt = s
                        break
                if tgt is None:
                    continue
                blk, a, b = tgt.body, 0, len(tgt.body)
                owner = tgt
            else:
                a = start + n // 3
                b = min(len(body), a + max(2, n // 2))
                blk, owner = body, f
            win = blk[a:b]
            if not method and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for s in win for x in ast.walk(s)):
                continue
            if loopless_jump(win) or any(isinstance(x, (ast.Import, ast.ImportFrom)) for s in win for x in ast.walk(s)):
                continue
            reads = set().union(*[names(s, ast.Load) for s in win]) & alllocals
            writes = set().union(*[names(s, ast.Store) for s in win])
            aug = {x.target.id for s in win for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            # every read local must be definitely assigned before: only params and top-level assigned names
            before = set(params)
            for s in (body[: body.index(owner)] if owner is not f else body[:a]):
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    before |= names(s, ast.Store)
                elif isinstance(s, ast.If):
                    pass
            if owner is not f and isinstance(owner, ast.For):
                before |= names(owner.target, ast.Store)
            comp_targets = set()
            for s in win:
                for x in ast.walk(s):
                    if isinstance(x, ast.comprehension):
                        comp_targets |= names(x.target, ast.Store)
            ins = sorted(((reads | aug) - comp_targets) & before)
            need = (reads | aug) - comp_targets - before
            # names read in the window must be written in it first: require top-level writes
            top = set()
            for s in win:
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    top |= names(s, ast.Store)
                if isinstance(s, ast.For):
                    top |= names(s.target, ast.Store)
            inner_for = {x for s in win for y in ast.walk(s) if isinstance(y, ast.For) for x in names(y.target, ast.Store)}
            inner_asg = set()
            if not need <= top | inner_for:
                continue
            after = set().union(set(), *[names(s, ast.Load) for s in (blk[b:] if owner is f else blk[b:] + body)])
            if owner is not f or True:
                pass
            outs = sorted((writes - comp_targets) & (after if owner is f else (names(f, ast.Load))))
            if not set(outs) <= top | before:
                continue
            for o in outs:
                if o not in ins and o in before:
                    ins.append(o)
            if owner is not f and any(o not in top for o in outs):
                continue
            cnt[0] += 1
            nm = "_extracted_%s_%s_%d" % (cls.name.lower() if cls else "m", f.name.strip("_"), cnt[0])
            hb = list(win)
            if outs:
                r = ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load())
                hb = hb + [ast.Return(r)]
            as_method = cls is not None and params and method
            args = [x for x in ins if not (as_method and x == params[0])]
            dargs = ([params[0]] if as_method else []) + args
            d = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in dargs], None, [], [], None, []), hb, [], None, None)
            d.type_params = []
            fn = ast.Attribute(ast.Name(params[0], ast.Load()), nm, ast.Load()) if as_method else ast.Name(nm, ast.Load())
            call = ast.Call(fn, [ast.Name(x, ast.Load()) for x in args], [])
            if outs:
                t = ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())
                st = ast.Assign([t], call)
            else:
                st = ast.Expr(call)
            blk[a:b] = [st]
            newdefs.append((d, as_method))
        for d, m in newdefs:
            if m:
                holder.body.append(d)
            else:
                tree.body.append(d)
    for x in list(tree.body):
        if isinstance(x, ast.ClassDef):
            # name mangling inside module-level helpers would differ
            if not method and any(isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__") for n in ast.walk(x)):
                continue
            do(x, x)
    do(tree, None)
    return ast.fix_missing_locations(tree)


@reg
def extract_method(tree):
    return extract(tree, True)


@reg
def extract_function(tree):
    return extract(tree, False)


@reg
def rename_locals(tree):
    for f in list(funcs(tree)):
        if has(f.body, ast.FunctionDef, ast.Lambda, ast.Nonlocal, ast.Global):
            continue
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        loc = {x for x in names(f, ast.Store)} - params
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = "zz_" + n.id
            elif isinstance(n, ast.ExceptHandler) and n.name and n.name in loc:
                n.name = "zz_" + n.name
    return tree


@reg
def double_negation_return(tree):
    """return a and b -> if not a: return a ; (bool exprs only)"""
    def fn(b, f):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Compare):
                s = ast.If(s.value, [ast.Return(ast.Constant(True))], [ast.Return(ast.Constant(False))])
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def sum_to_loop(tree):
    cnt = [0]

    def fn(b, f):
        out = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "sum" and len(v.args) == 1:
                cnt[0] += 1
                nm = "_s%d" % cnt[0]
                out.append(ast.parse("%s = 0" % nm).body[0])
                a = v.args[0]
                if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
                    st = ast.AugAssign(ast.Name(nm, ast.Store()), ast.Add(), a.elt)
                    for g in reversed(a.generators):
                        for c in reversed(g.ifs):
                            st = ast.If(c, [st], [])
                        st = ast.For(g.target, g.iter, [st], [])
                    out.append(st)
                else:
                    out.append(ast.For(ast.Name("_e", ast.Store()), a, [ast.AugAssign(ast.Name(nm, ast.Store()), ast.Add(), ast.Name("_e", ast.Load()))], []))
                s.value = ast.Name(nm, ast.Load())
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def any_to_loop(tree):
    cnt = [0]

    def fn(b, f):
        out = []
        for s in b:
            v = s.test if isinstance(s, ast.If) else None
            n = False
            if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
                v, n = v.operand, True
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all") and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)):
                cnt[0] += 1
                nm = "_f%d" % cnt[0]
                isany = v.func.id == "any"
                out.append(ast.parse("%s = %s" % (nm, not isany)).body[0])
                a = v.args[0]
                st = ast.If(a.elt if isany else neg(a.elt), [ast.parse("%s = %s" % (nm, isany)).body[0], ast.Break()], [])
                if len(a.generators) != 1:
                    st = ast.If(a.elt if isany else neg(a.elt), [ast.parse("%s = %s" % (nm, isany)).body[0]], [])
                for g in reversed(a.generators):
                    for c in reversed(g.ifs):
                        st = ast.If(c, [st], [])
                    st = ast.For(g.target, g.iter, [st], [])
                out.append(st)
                s.test = neg(ast.Name(nm, ast.Load())) if n else ast.Name(nm, ast.Load())
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def kw_args(tree):
    return tree


@reg
def minmax_to_if(tree):
    class T(Base):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max") and len(n.args) == 2 and not n.keywords:
                a, b = n.args
                c = ast.Compare(copy.deepcopy(a), [ast.Lt() if n.func.id == "min" else ast.Gt()], [copy.deepcopy(b)])
                return ast.IfExp(c, a, b)
            return n
    return ast.fix_missing_locations(T().visit(tree))


@reg
def fstring(tree):
    class T(Base):
        def visit_JoinedStr(self, n):
            vals = [x.value for x in n.values if isinstance(x, ast.FormattedValue) and x.format_spec is None and x.conversion == -1]
            if len(vals) != sum(isinstance(x, ast.FormattedValue) for x in n.values) or not vals:
                return n
            t = "".join("{}" if isinstance(x, ast.FormattedValue) else x.value.replace("{", "{{").replace("}", "}}") for x in n.values)
            return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), vals, [])
    return ast.fix_missing_locations(T().visit(tree))


@reg
def update_to_items(tree):
    """d.update({'a': x}) -> d['a'] = x ; d.update(e) -> for k in e: d[k] = e[k] left alone"""
    def fn(b, f):
        out = []
        for s in b:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "update" and len(s.value.args) == 1 and isinstance(s.value.args[0], ast.Dict) and all(k is not None for k in s.value.args[0].keys):
                for k, v in zip(s.value.args[0].keys, s.value.args[0].values):
                    out.append(ast.Assign([ast.Subscript(copy.deepcopy(s.value.func.value), k, ast.Store())], v))
                continue
            out.append(s)
        return out
    return rewrite_blocks(tree, fn)


@reg
def if_true_wrap(tree):
    def fn(b, f):
        return b
    for f in funcs(tree):
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        if f.body[i:]:
            f.body[i:] = [ast.If(ast.Constant(True), f.body[i:], [])]
    return ast.fix_missing_locations(tree)
