"""Whole-program rules.  Each looks at every instance of a pattern in the current source and returns
a Result: how many instances it decided, and the ones that break the rule."""
import ast
import fnmatch

from .consts import constants
from .index import FuncInfo, walk_own
from .own import Own, short


class Result:
    def __init__(self, floor=1):
        self.instances = 0
        self.violations = []
        self.floor = floor

    def bad(self, key, text):
        if key not in [k for k, _ in self.violations]:
            self.violations.append((key, text))


RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def own_of(run):
    if not hasattr(run, "own"):
        run.own = Own(run.ix)
    return run.own


def methods(ix, modpat="*"):
    """(class, method as seen by that class) for every class, setters included"""
    for m in ix.modules.values():
        mn = m.name.split(".", 1)[-1]
        if not fnmatch.fnmatchcase(mn, modpat):
            continue
        for c in m.classes.values():
            names = []
            for k in ix.mro(c):
                names += [n for n in k.methods if n not in names]
            for n in names:
                yield c, ix.find_method(c, n)
            for k in ix.mro(c):
                for n, f in k.setters.items():
                    yield c, f


# ---------------------------------------------------------------- ownership

# values computed on demand from the statistics and stored for the next reading; a later update resets them
CACHES = {"histogram_methods", "histogram_selection", "_possible_data_labels", "_rank_distribution",
          "_reverse_label_mapping", "_sum_predictions"}
# configuration shared on purpose: options trees, labelers and their models
# what a profile is set up with, as opposed to what it has measured
CONFIG = {"options", "data_labeler", "data_labeler_object", "_default_labeler", "_possible_data_labels",
          "_reverse_label_mapping"}

READERS = ("__add__", "__eq__", "__lt__", "diff", "report", "profile", "save", "get_parameters", "_diff_helper",
           "validate_metadata", "is_match", "predict", "evaluate")


def pathkey(p):
    return "".join(f if f[0] == "[" else "." + f for f in p[1:])


def touched_objects(s):
    """paths of parameter objects a function changes: contents changed in place, or an attribute bound anew"""
    out = {}
    for p, w in s.mut.items():
        out[p] = w
    for p, w in s.reb.items():
        out[p] = w
    return out


def allowed(p, extra=()):
    return any(f in CACHES or f in CONFIG or f in extra for f in p[1:])


def param_names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


@rule
def no_mutation(run, prop):
    """operations that combine, compare, report or save change none of their operands"""
    ix, own = run.ix, own_of(run)
    r = Result(floor=60)

    def look(f, cls, only=None, extra=()):
        s = own.summary(f, cls)
        r.instances += 1
        for p, w in sorted(touched_objects(s).items(), key=str):
            if p[0][0] != "P" or (only is not None and p[0][1] not in only):
                continue
            if allowed(p, extra):
                continue
            nm = "%s.%s" % (cls.name, f.name) if cls else f.name
            ps = param_names(f)
            i = ps.index(p[0][1]) if p[0][1] in ps else "*"
            r.bad("%s:%s arg%s%s" % (f.module.name.split(".", 1)[-1], nm, i, pathkey(p)),
                  "%s\n  changes its argument %s%s\n  at %s" % (f.loc(), p[0][1], pathkey(p), w))

    for c, f in methods(ix, "profilers.*"):
        if f.is_stub() or f.is_setter or c.name.startswith("abstract"):  # decorators mark what they decorate
            continue
        if f.name in ("__add__", "__eq__", "__lt__", "diff", "report", "profile"):
            look(f, c)
        elif f.name == "save":
            look(f, c, extra=("data_labeler",))
        elif f.name in ("update_profile", "update", "__init__"):
            look(f, c, only=[n for n in param_names(f)[1:] if n not in ("options", "config")])
    for c, f in methods(ix, "data_readers.*"):
        if f.is_stub() or f.is_setter:
            continue
        if f.name in ("__init__", "reload", "__new__", "is_match"):
            # recognisers hand what they found out to the reader through the options they are given
            look(f, c, only=[n for n in param_names(f)[0 if f.is_static else 1:]
                             if not (f.name == "is_match" and n == "options")])
    for m in ix.modules.values():
        for f in m.funcs.values():
            if f.name.startswith("find_diff_of") or f.name in (
                    "add_nested_dictionaries", "_prepare_report", "merge", "merge_profile_list", "biased_skew",
                    "biased_kurt", "perform_chi_squared_test_for_homogeneity", "flat_dict", "calculate_quantiles"):
                look(f, None)
    return r


def suffix(p):
    i = len(p)
    while i > 1 and p[i - 1][0] == "[":
        i -= 1
    return p[i - 1:] if i > 1 else None


def sel_match(a, b):
    return a == b or a == "[]" or b == "[]"


def in_place(run):
    """every place of the program that changes an object held in an attribute: attribute + selectors -> where"""
    if hasattr(run, "in_place"):
        return run.in_place
    ix, own = run.ix, own_of(run)
    out = {}

    def take(s):
        for p, w in s.mut.items():
            x = suffix(p)
            if x:
                out.setdefault(x, w)
        for p, w in s.reb.items():
            x = suffix(p[:-1])
            if x:
                out.setdefault(x, w)

    for c, f in methods(ix):
        if c.module.name.endswith("profiler_options"):
            continue  # options share attribute names with statistics; they are configuration
        take(own.summary(f, c))
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, ast.FunctionDef):
                take(own.summary(FuncInfo(n, f.module, f.cls), c))
    for m in ix.modules.values():
        for f in m.funcs.values():
            take(own.summary(f))
    run.in_place = out
    return out


def shared(s, roots):
    """(path in the result, path in an operand) pairs of objects both hold"""
    out = []
    byb = {}
    for (b, f), v in s.heap.items():
        byb.setdefault(b, []).append((f, v))
    seen = set()
    work = [(o, ()) for o in roots]
    while work:
        o, path = work.pop()
        if (o, path) in seen or len(path) > 5:
            continue
        seen.add((o, path))
        for f, v in byb.get(o, ()):
            if f == "*":
                for x in v:
                    if x[0][0] == "P":
                        out.append((path + ("*",), x))
                continue
            for x in v:
                if x[0][0] == "P":
                    out.append((path + (f,), x))
                elif x[0][0] == "N":
                    work.append((x, path + (f,)))
    return out


MAKERS = {"dict", "list", "set", "defaultdict", "OrderedDict", "Counter", "deque", "array", "zeros", "ones", "empty",
          "full", "DataFrame", "Series"}


def container_attrs(ix):
    """attributes that some method of the class sets to a fresh container"""
    out = {}
    for c, f in methods(ix):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                ts, v = n.targets, n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                ts, v = [n.target], n.value
            else:
                continue
            fn = v.func if isinstance(v, ast.Call) else None
            if not (isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp))
                    or isinstance(fn, (ast.Name, ast.Attribute))
                    and (fn.id if isinstance(fn, ast.Name) else fn.attr) in MAKERS):
                continue
            for t in ts:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                    out.setdefault(t.attr, f.loc())
    return out


@rule
def no_alias(run, prop):
    """no merge result holds a container attribute of an operand, nor any object of an operand that
    something in the program changes in place"""
    ix, own = run.ix, own_of(run)
    r = Result(floor=12)
    hot = in_place(run)
    boxes = container_attrs(ix)
    for c, f in methods(ix, "profilers.*"):
        if f.name != "__add__" or f.is_stub():
            continue
        s = own.summary(f, c)
        r.instances += 1
        for o in s.ret:
            if o[0][0] == "P":
                r.bad("%s.__add__ returns %s" % (c.qual, short(o)), "%s\n  returns an operand" % f.loc())
        for path, x in shared(s, s.ret):
            if len(x) < 2:
                r.bad("%s.__add__ .%s" % (c.qual, ".".join(path)), "%s\n  result holds the operand itself" % f.loc())
                continue
            if any(q in CONFIG for q in path) or any(q in CONFIG for q in x):
                continue
            if path[-1] in boxes and x[-1] == path[-1]:
                r.bad("%s.__add__ .%s" % (c.qual, ".".join(path)),
                      "%s\n  result.%s is the container %s of an operand" % (f.loc(), ".".join(path), short(x)))
            for own_path in (suffix(("",) + path), suffix(x)):
                if not own_path or own_path[0] in CONFIG or own_path[0] == "?":
                    continue
                for h, w in hot.items():
                    if h[0] == own_path[0] and len(h) >= len(own_path) and \
                            all(sel_match(a, b) for a, b in zip(own_path[1:], h[1:])):
                        r.bad("%s.__add__ .%s" % (c.qual, ".".join(path)),
                              "%s\n  result.%s is the object %s of an operand\n  changed in place at %s"
                              % (f.loc(), ".".join(path), short(x), w))
    return r


@rule
def params_not_shared(run, prop):
    """labeler components neither change nor keep the containers passed to them, and hand out copies of their own"""
    ix, own = run.ix, own_of(run)
    r = Result(floor=20)
    hot = in_place(run)
    for c, f in methods(ix, "labelers.*"):
        if f.is_stub() or f.is_static or f.is_class or f.is_setter or f.name not in (
                "__init__", "set_params", "set_label_mapping", "_validate_parameters", "set_labels", "get_parameters",
                "add_label", "set_model", "set_preprocessor", "set_postprocessor", "label_mapping"):
            continue
        s = own.summary(f, c)
        r.instances += 1
        me = param_names(f)[0]
        for p, w in sorted(touched_objects(s).items(), key=str):
            if p[0][0] == "P" and p[0][1] != me:
                r.bad("%s.%s %s%s" % (c.qual, f.name, p[0][1], pathkey(p)),
                      "%s\n  changes the caller's %s%s\n  at %s" % (f.loc(), p[0][1], pathkey(p), w))
        if f.name in ("get_parameters", "label_mapping"):
            for x in list(s.ret) + [y for _, y in shared(s, s.ret)]:
                if x[0] == ("P", me) and (len(x) == 2 or len(x) > 2 and not c.module.name.endswith("labelers.data_processing")):
                    r.bad("%s.%s returns %s" % (c.qual, f.name, pathkey(x)),
                          "%s\n  hands out the component's own %s" % (f.loc(), short(x)))
            continue
        for (b, fl), v in s.heap.items():
            if b != (("P", me),) or fl in ("_model", "_preprocessor", "_postprocessor"):
                continue
            for x in v:
                if x[0][0] == "P" and x[0][1] != me:
                    for h, w in hot.items():
                        if h[0] == fl:
                            r.bad("%s.%s .%s" % (c.qual, f.name, fl),
                                  "%s\n  keeps the caller's %s as .%s, which is changed in place at %s"
                                  % (f.loc(), short(x), fl, w))
    return r


@rule
def reject_before_change(run, prop):
    """a documented rejection is raised before anything was changed"""
    ix, own = run.ix, own_of(run)
    r = Result(floor=60)
    for c, f in methods(ix, "profilers.*"):
        if f.is_stub() or f.is_setter or f.name not in ("__add__", "diff", "update", "update_profile"):
            continue
        if c.module.name.endswith("profiler_options"):
            continue
        s = own.summary(f, c)
        mine = {k.name for k in ix.mro(c)}
        for (loc, n), d in sorted(s.raises.items()):
            q = loc.split(" ")[1].split(":")[1]
            if q == "StructuredProfiler._update_row_statistics" and n == "ValueError":
                continue  # asks for a frame; its callers have made one
            if n == "NotImplementedError" or q.split(".")[0] not in mine:
                continue  # judged at the class that raises it
            r.instances += 1
            d = [p for p in d if p[0][0] == "P" and not allowed(p)]
            if d:
                r.bad("%s.%s %s in %s" % (c.qual, f.name, n, q),
                      "%s\n  %s.%s raises %s after changing %s" % (loc, c.name, f.name, n, ", ".join(sorted(map(short, d))[:4])))
    return r


@rule
def use_keeps_settings(run, prop):
    """predicting, processing, saving and comparing leave parameters, labels and the data given alone"""
    ix, own = run.ix, own_of(run)
    r = Result(floor=25)
    for c, f in methods(ix, "labelers.*"):
        if f.is_stub() or f.name not in ("predict", "process", "save_to_disk", "get_parameters", "__eq__", "evaluate",
                                         "save_params", "help", "get_postprocessor_params", "get_class"):
            continue
        s = own.summary(f, c)
        r.instances += 1
        ps = param_names(f)
        me = ps[0] if ps and not (f.is_static or f.is_class) else None
        for p, w in sorted(touched_objects(s).items(), key=str):
            if p[0][0] != "P" or f.name == "process" and p[0][1] != me:
                continue  # processors may work in place on what the model handed them
            if p[0][1] == me and not any(x in ("_parameters", "label_mapping", "_label_mapping", "_reverse_label_mapping") for x in p[1:]):
                continue
            i = ps.index(p[0][1]) if p[0][1] in ps else "*"
            r.bad("%s.%s arg%s%s" % (c.qual, f.name, i, pathkey(p)),
                  "%s\n  changes %s%s\n  at %s" % (f.loc(), p[0][1], pathkey(p), w))
    return r


@rule
def done_flag_last(run, prop):
    """a flag that says the work was done is not up when the work failed"""
    ix, own = run.ix, own_of(run)
    r = Result(floor=1)
    for c, f in methods(ix, "validators.*"):
        if f.is_stub() or f.name == "__init__":
            continue
        s = own.summary(f, c)
        flags = set()
        for k in ix.mro(c):
            for g in k.methods.values():
                if g.name == "__init__":
                    for n in ast.walk(g.node):
                        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant) and n.value.value is False:
                            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                                if isinstance(t, ast.Attribute):
                                    flags.add(t.attr)
        for (loc, n), d in sorted(s.raises.items()):
            r.instances += 1
            bad = [p for p in d if p[0][0] == "P" and p[-1] in flags]
            if bad:
                r.bad("%s.%s %s" % (c.qual, f.name, bad[0][-1]),
                      "%s\n  raises %s with the flag %s already up" % (loc, n, short(bad[0])))
    return r


# ---------------------------------------------------------------- constants

def named_in(run):
    """{function: names and attributes it mentions}"""
    if not hasattr(run, "mentions"):
        run.mentions = {}
        for f in run.ix.functions():
            q = f.qual + ("=" if f.is_setter else "")
            run.mentions[q] = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(f.node)
                               if isinstance(n, (ast.Attribute, ast.Name))}
    return run.mentions


@rule
def constants_kept(run, prop):
    """the tables and thresholds the property's code is driven by have the values reviewed with it"""
    from .engine import cone
    names, inner = cone(prop, run.store, "quick")
    says = named_in(run)
    mentioned = set()
    for q in names | inner:
        mentioned |= says.get(q, set())
    r = Result(floor=0)
    now = constants(run.ix)
    for k, old in sorted(run.store.consts.items()):
        n = k.split(":")[1].split(".")[-1]
        if n not in mentioned or k not in now:
            continue
        r.instances += 1
        new, loc = now[k]
        if new != old:
            r.bad("%s" % k, "%s: %s\n  was: %s\n  is:  %s" % (loc, k, old[:400], new[:400]))
    return r
