"""Determinism: no hidden inputs, no state shared between executions."""
import ast

from . import rule
from ..project import Func, Class, FORKS
from ..modref import MUTATORS, _Scan

BAD_MODULES = {
    "time", "datetime", "random", "secrets", "os", "socket", "uuid",
    "threading", "multiprocessing", "asyncio", "tempfile", "platform",
    "getpass", "subprocess", "pathlib", "urllib", "requests", "http",
    "locale", "io", "signal", "resource", "gc", "inspect", "weakref",
    "ctypes", "sqlite3", "shelve", "contextvars", "concurrent", "glob",
    "shutil", "numpy", "calendar", "traceback", "builtins", "pickle",
    "_thread", "queue", "selectors", "select", "zoneinfo", "atexit"}
BAD_SYS = {"argv", "stdin", "flags", "platform", "version", "version_info",
           "modules", "path", "hash_info", "getsizeof", "getrefcount",
           "_getframe", "implementation", "getrecursionlimit", "exc_info",
           "executable", "byteorder"}
BAD_BUILTINS = {"open", "input", "id", "hash", "globals", "vars", "eval",
                "exec", "compile", "__import__", "breakpoint", "locals",
                "memoryview"}
CACHES = {"functools.lru_cache", "functools.cache",
          "functools.cached_property"}
MUT_CALLS = {"list", "dict", "set", "bytearray", "collections.deque",
             "collections.defaultdict", "collections.Counter",
             "collections.OrderedDict"}


def scope(ctx):
    return [f for f in ctx.act.functions("ethereum")]


def sym(ctx, mod, e, local=()):
    r = e
    while isinstance(r, ast.Attribute):
        r = r.value
    if not isinstance(r, ast.Name) or r.id in local:
        return None
    return ctx.act.resolve_expr(mod, e)


def locals_of(node):
    a = node.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    glob = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Global,)):
            glob |= set(x.names)
        elif isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not node:
            b = x.args
            out |= {y.arg for y in b.posonlyargs + b.args + b.kwonlyargs}
            if isinstance(x, ast.FunctionDef):
                out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for y in x.names:
                out.add((y.asname or y.name).split(".")[0])
    return out - glob


def local_imports(ctx, fn):
    """name -> Sym of imports made inside the function."""
    out = {}
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Import):
            for y in x.names:
                out[(y.asname or y.name).split(".")[0]] = \
                    ctx.act.resolve_dotted(
                        y.name if y.asname else y.name.split(".")[0])
        elif isinstance(x, ast.ImportFrom):
            base = x.module or ""
            if x.level:
                p = fn.mod.pkg().split(".")
                if x.level > 1:
                    p = p[:-(x.level - 1)]
                base = ".".join(p + ([base] if base else []))
            for y in x.names:
                out[y.asname or y.name] = ctx.act.resolve_dotted(
                    f"{base}.{y.name}")
    return out


def resolver(ctx, fn):
    loc = locals_of(fn.node)
    imps = local_imports(ctx, fn)

    def res(e):
        r = e
        while isinstance(r, ast.Attribute):
            r = r.value
        if not isinstance(r, ast.Name):
            return None
        if r.id in imps:
            if r is e:
                return imps[r.id]
            b = res(e.value)
            return ctx.act.member(b, e.attr) if b is not None and \
                b.kind in ("mod", "class", "ext") else None
        if r.id in loc:
            return None
        return ctx.act.resolve_expr(fn.mod, e)
    return res, loc


@rule("C21")
def hidden_inputs(ctx):
    """No function under `ethereum` names a source of nondeterminism."""
    out = []
    n = 0
    for fn in scope(ctx):
        res, loc = resolver(ctx, fn)
        skip = set()
        for x in ast.walk(fn.node):
            if not isinstance(x, (ast.Name, ast.Attribute)) or \
                    not isinstance(x.ctx, ast.Load):
                continue
            if id(x) in skip:
                continue
            s = res(x)
            if s is None:
                continue
            n += 1
            for y in ast.walk(x):
                skip.add(id(y))
            bad = source(s)
            if bad and s.qual == "hash" and fn.qual.endswith(".__hash__"):
                bad = None
            if bad:
                out.append(ctx.finding("hidden-input", fn.qual, fn.mod, x,
                                       f"uses {bad}"))
    # module level
    for m in ctx.act.modules.values():
        if m.name != "ethereum" and not m.name.startswith("ethereum."):
            continue
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import,
                               ast.ImportFrom)):
                continue
            for x in ast.walk(st):
                if isinstance(x, (ast.Name, ast.Attribute)):
                    s = ctx.act.resolve_expr(m, x)
                    bad = source(s) if s is not None else None
                    if bad and not bad.startswith("sys."):
                        out.append(ctx.finding("hidden-input", m.name, m, x,
                                               f"uses {bad}"))
    ctx.count("references_resolved", n)
    return out


def source(s):
    if s.kind == "ext":
        top = s.qual.split(".")[0]
        if top in BAD_MODULES:
            return s.qual
        if top == "sys" and s.qual.split(".")[-1] in BAD_SYS:
            return s.qual
    elif s.kind == "builtin" and s.qual in BAD_BUILTINS:
        return s.qual + "()"
    return None


def is_mutable(ctx, mod, e, depth=0):
    """The expression builds (or names) an object that can be changed."""
    if e is None or depth > 6:
        return False
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                      ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        s = ctx.act.resolve_expr(mod, e.func)
        if s is None:
            return False
        if s.kind in ("builtin", "ext"):
            return s.qual in MUT_CALLS
        if s.kind == "class":
            return mutable_class(ctx, s.node)
        return False
    if isinstance(e, (ast.Name, ast.Attribute)):
        s = ctx.act.resolve_expr(mod, e)
        if s is not None and s.kind == "const" and s.node is not e:
            return is_mutable(ctx, s.mod, s.node, depth + 1)
    return False


def mutable_class(ctx, c):
    anc = ctx.act.ancestors(c)
    if any("Enum" in a.rpartition(".")[2] for a in anc):
        return False
    for d in c.node.decorator_list:
        t = ast.unparse(d)
        if "frozen" in t or "slotted_freezable" in t:
            return False
    if any(a.startswith("ethereum_types") for a in anc):
        return False
    return any(isinstance(d, (ast.Name, ast.Call, ast.Attribute))
               and "dataclass" in ast.unparse(d)
               for d in c.node.decorator_list)


# the slot of the installed tracer; C28 shows that nothing flows back
TRACER_SLOT = {"ethereum.trace._evm_trace"}


def shared_of(ctx):
    """Functions whose result aliases a module-level mutable object."""
    if hasattr(ctx, "_shared"):
        return ctx._shared
    got = {}
    for fn in scope(ctx):
        res, loc = resolver(ctx, fn)
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Return) and x.value is not None:
                r = root_of(x.value)
                if isinstance(r, ast.Name):
                    s = shared(ctx, res, x.value)
                    if s:
                        got[fn.qual] = s
    ctx._shared = got
    return got


def root_of(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e


def shared(ctx, res, e, alias=None):
    """Qualified name of the shared mutable object that `e` aliases."""
    r = root_of(e)
    if isinstance(r, ast.Call):
        s = res(r.func)
        if s is not None and s.kind == "func":
            return getattr(ctx, "_shared", {}).get(s.qual)
        if isinstance(r.func, ast.Attribute) and r.func.attr in (
                "get", "setdefault", "values", "items") and \
                root_of(r.func.value) is not r:
            return shared(ctx, res, r.func.value, alias)
        return None
    if not isinstance(r, ast.Name):
        return None
    if alias and r.id in alias:
        return alias[r.id]
    # longest resolvable prefix
    pre = e
    while isinstance(pre, ast.Subscript):
        pre = pre.value
    while True:
        s = res(pre) if isinstance(pre, (ast.Name, ast.Attribute)) else None
        if s is not None or not isinstance(pre, (ast.Attribute,
                                                 ast.Subscript)):
            break
        pre = pre.value
    if s is None:
        return None
    if s.kind == "const":
        if is_mutable(ctx, s.mod, s.node):
            return s.qual
        return None
    return None


@rule("C21")
def shared_state(ctx):
    """No object that outlives an execution is modified by one."""
    out = []
    n = 0
    shared_of(ctx)
    infos = ctx.act_infos
    for fn in scope(ctx):
        res, loc = resolver(ctx, fn)
        n += 1
        glob = set()
        alias = {}

        def rep(x, what):
            out.append(ctx.finding("shared-state", fn.qual, fn.mod, x, what))
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Global):
                glob |= set(x.names)
        for _ in range(2):
            for x in ast.walk(fn.node):
                v = None
                if isinstance(x, ast.Assign) and len(x.targets) == 1:
                    t, v = x.targets[0], x.value
                elif isinstance(x, ast.AnnAssign):
                    t, v = x.target, x.value
                elif isinstance(x, ast.NamedExpr):
                    t, v = x.target, x.value
                if v is None or not isinstance(t, ast.Name):
                    continue
                for w in ([v.body, v.orelse] if isinstance(v, ast.IfExp)
                          else v.values if isinstance(v, ast.BoolOp)
                          else [v]):
                    s = shared(ctx, res, w, alias)
                    if s:
                        alias[t.id] = s
        sc = _Scan(ctx.act, infos, fn)

        def store(t, x):
            if isinstance(t, (ast.Tuple, ast.List)):
                for y in t.elts:
                    store(y, x)
            elif isinstance(t, ast.Name):
                if t.id in glob:
                    q = f"{fn.mod.name}.{t.id}"
                    if q not in TRACER_SLOT:
                        rep(x, f"rebinds the module variable {t.id}")
            elif isinstance(t, (ast.Attribute, ast.Subscript)):
                s = shared(ctx, res, t.value, alias)
                if s:
                    rep(x, f"changes the shared object {short(s)}")
                elif isinstance(t, ast.Attribute):
                    b = res(t.value)
                    if b is not None and b.kind in ("func", "class", "mod",
                                                    "ext"):
                        rep(x, f"sets an attribute of {b.qual}")
                    elif isinstance(t.value, ast.Name) and \
                            t.value.id == "cls":
                        rep(x, "sets a class attribute")
                    elif ast.unparse(t.value).endswith("__class__") or \
                            ast.unparse(t.value).startswith("type("):
                        rep(x, "sets a class attribute")
                if isinstance(t, ast.Subscript) or isinstance(
                        t, ast.Attribute):
                    s = class_shared(ctx, fn, t.value)
                    if s:
                        rep(x, f"changes the class-level object {s}")
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    store(t, x)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                if isinstance(x, ast.AugAssign) and \
                        isinstance(x.target, ast.Name) and \
                        x.target.id in alias and isinstance(
                            x.op, (ast.Add, ast.BitOr, ast.BitAnd,
                                   ast.Sub)):
                    rep(x, "changes the shared object "
                        + short(alias[x.target.id]))
                store(x.target, x)
            elif isinstance(x, ast.Delete):
                for t in x.targets:
                    store(t, x)
            elif isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    s = shared(ctx, res, f.value, alias) or \
                        class_shared(ctx, fn, f.value)
                    if s:
                        rep(x, f"changes the shared object {short(s)}")
                s = res(f)
                if s is not None and s.kind == "builtin" and \
                        s.qual in ("setattr", "delattr"):
                    rep(x, "reflective attribute store")
                if s is not None and s.kind == "func":
                    inf = infos.get(s.qual)
                    if inf is not None and inf.mods:
                        for i, a in sc.arg_exprs(x, s.node).items():
                            if any(p[0] == i for p in inf.mods):
                                q = shared(ctx, res, a, alias)
                                if q:
                                    rep(x, f"passes the shared object "
                                        f"{short(q)} to {s.qual}, which "
                                        "changes it")
        # defaults
        a = fn.node.args
        for d in list(a.defaults) + [y for y in a.kw_defaults
                                     if y is not None]:
            if is_mutable(ctx, fn.mod, d):
                rep(d, f"mutable default argument {ast.unparse(d)}")
        # closures that remember
        for h in ast.walk(fn.node):
            if isinstance(h, ast.FunctionDef) and h is not fn.node:
                w = remembers(fn.node, h)
                if w:
                    rep(h, f"nested function keeps {w} between calls")
        # caches
        for d in fn.node.decorator_list:
            c = d.func if isinstance(d, ast.Call) else d
            s = ctx.act.resolve_expr(fn.mod, c)
            if s is not None and s.qual in CACHES:
                w = impure(ctx, fn, infos)
                if w:
                    rep(d, f"cached although {w}")
    for c in ctx.act.classes("ethereum"):
        anc = ctx.act.ancestors(c)
        if any("Enum" in a.rpartition(".")[2] for a in anc):
            continue
        for name, ann, v in c.fields:
            if v is None:
                continue
            n += 1
            if isinstance(v, ast.Call):
                s = ctx.act.resolve_expr(c.mod, v.func)
                if s is not None and s.qual == "dataclasses.field":
                    for k in v.keywords:
                        if k.arg == "default" and is_mutable(ctx, c.mod,
                                                             k.value):
                            out.append(ctx.finding(
                                "shared-state", c.qual, c.mod, v,
                                f"field {name} defaults to a shared object"))
                        if k.arg == "default_factory" and isinstance(
                                k.value, ast.Lambda) and isinstance(
                                k.value.body, (ast.Name, ast.Attribute)) \
                                and is_mutable(ctx, c.mod, k.value.body):
                            out.append(ctx.finding(
                                "shared-state", c.qual, c.mod, v,
                                f"field {name} defaults to a shared object"))
                    continue
            if "ClassVar" in ast.unparse(ann) or "Final" in ast.unparse(ann):
                continue
            if is_mutable(ctx, c.mod, v):
                out.append(ctx.finding(
                    "shared-state", c.qual, c.mod, v,
                    f"field {name} defaults to a shared object"))
    ctx.count("functions_and_fields_checked_for_shared_state", n)
    return out


def class_shared(ctx, fn, e):
    """self.X / cls.X where X is a mutable class attribute only."""
    if fn.cls is None or not isinstance(e, ast.Attribute) or \
            not isinstance(e.value, ast.Name) or not fn.params or \
            e.value.id != fn.params[0]:
        return None
    for k in ctx.act.mro(fn.cls):
        if e.attr in {f[0] for f in k.fields} and any(
                "dataclass" in ast.unparse(d)
                for d in k.node.decorator_list):
            return None
        for m in k.methods.values():
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and x.attr == e.attr and \
                        isinstance(x.ctx, ast.Store):
                    return None
    cc = ctx.act.find_class_const(fn.cls, e.attr)
    if cc is not None and is_mutable(ctx, cc[0].mod, cc[1]):
        return f"{cc[0].qual}.{e.attr}"
    return None


def remembers(outer, h):
    own = locals_of(h)
    used = False
    for x in ast.walk(outer):
        if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and \
                x.value.id == h.name:
            used = True
    if not used:
        return None
    for x in ast.walk(h):
        if isinstance(x, ast.Nonlocal):
            return x.names[0]
        t = None
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                and x.func.attr in MUTATORS:
            t = root_of(x.func.value)
        elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(
                x.ctx, (ast.Store, ast.Del)):
            t = root_of(x)
        if isinstance(t, ast.Name) and t.id not in own and \
                t.id in locals_of(outer):
            return t.id
    return None


def impure(ctx, fn, infos):
    inf = infos.get(fn.qual)
    if inf is not None and inf.mods:
        return "it has effects"
    a = fn.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        t = x.annotation
        k = ctx.act.ann_kind(t)
        nm = ast.unparse(t) if t is not None else ""
        if any(w in nm for w in ("List", "Dict", "Set", "list", "dict",
                                 "set", "bytearray", "State", "Trie",
                                 "Evm", "Env", "BlockChain")):
            return f"its argument {x.arg} can change"
        if k not in ("int", "seq", "flag") and k is not None and \
                k == "obj":
            s = ctx.act.resolve_expr(fn.mod, t) if isinstance(
                t, (ast.Name, ast.Attribute)) else None
            if s is not None and s.kind == "class" and mutable_class(
                    ctx, s.node):
                return f"its argument {x.arg} can change"
    # equal keys must mean equal arguments: bool/int/enum mixes are fine;
    # the result must not be a mutable object
    if a.vararg or a.kwarg:
        return None
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Return) and isinstance(
                x.value, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.SetComp, ast.DictComp)):
            return "callers share its mutable result"
    return None


def short(q):
    return q.replace("ethereum.", "", 1)


# ------------------------------------------------------------ set iteration
SETS = {"Set", "set", "FrozenSet", "frozenset", "MutableSet", "AbstractSet"}
ORDERLESS = {"sorted", "set", "frozenset", "sum", "any", "all", "min", "max",
             "len", "dict"}


def ann_set(a):
    if a is None:
        return False
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return a.value.split("[")[0] in SETS
    if isinstance(a, ast.Subscript):
        b = a.value
        nm = b.id if isinstance(b, ast.Name) else getattr(b, "attr", "")
        if nm == "Optional":
            return ann_set(a.slice)
        return nm in SETS
    nm = a.id if isinstance(a, ast.Name) else getattr(a, "attr", "")
    return nm in SETS


class SetTypes:
    def __init__(self, ctx, fn, res, fields):
        self.ctx, self.res, self.fields, self.fn = ctx, res, fields, fn
        self.names = set()
        a = fn.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if ann_set(x.annotation):
                self.names.add(x.arg)
        for _ in range(3):
            for x in ast.walk(fn.node):
                if isinstance(x, ast.AnnAssign) and isinstance(
                        x.target, ast.Name):
                    if ann_set(x.annotation):
                        self.names.add(x.target.id)
                elif isinstance(x, ast.Assign) and self.is_set(x.value):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            self.names.add(t.id)
                elif isinstance(x, ast.NamedExpr) and self.is_set(x.value):
                    self.names.add(x.target.id)

    def is_set(self, e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Name):
            if e.id in self.names:
                return True
            s = self.res(e)
            return s is not None and s.kind == "const" and isinstance(
                s.node, (ast.Set, ast.SetComp))
        if isinstance(e, ast.Attribute):
            return e.attr in self.fields
        if isinstance(e, ast.BinOp) and isinstance(
                e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(e.left) or self.is_set(e.right) and \
                not isinstance(e.op, ast.Sub)
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body) or self.is_set(e.orelse)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in ("set", "frozenset"):
                return True
            if isinstance(f, ast.Attribute) and f.attr in (
                    "union", "difference", "intersection",
                    "symmetric_difference", "copy"):
                return self.is_set(f.value)
            s = self.res(f)
            if s is not None and s.kind == "func":
                return ann_set(s.node.node.returns)
            if s is not None and s.qual in ("copy.copy", "copy.deepcopy") \
                    and e.args:
                return self.is_set(e.args[0])
        return False


def index_used(x):
    """The number given by enumerate is looked at."""
    t = x.target
    if not isinstance(t, ast.Tuple) or not isinstance(t.elts[0], ast.Name):
        return True
    return any(isinstance(y, ast.Name) and y.id == t.elts[0].id
               and isinstance(y.ctx, ast.Load)
               for st in x.body + x.orelse for y in ast.walk(st))


@rule("C21")
def set_order(ctx):
    """The order in which a set is iterated reaches no result."""
    yes, no = set(), set()
    for c in ctx.act.classes("ethereum"):
        for n, a, _ in c.fields:
            (yes if ann_set(a) else no).add(n)
    fields = yes - no
    out = []
    n = 0
    for fn in scope(ctx):
        res, loc = resolver(ctx, fn)
        st = SetTypes(ctx, fn, res, fields)
        parents = {}
        for x in ast.walk(fn.node):
            for y in ast.iter_child_nodes(x):
                parents[id(y)] = x

        def rep(x, what):
            out.append(ctx.finding("set-order", fn.qual, fn.mod, x, what))
        for x in ast.walk(fn.node):
            if isinstance(x, ast.For):
                it = x.iter
                if isinstance(it, ast.Call) and isinstance(
                        it.func, ast.Name) and it.func.id in (
                        "list", "tuple", "enumerate", "reversed", "iter") \
                        and it.args and st.is_set(it.args[0]):
                    it = it.args[0]
                    if x.iter.func.id == "enumerate" and index_used(x):
                        rep(x, "numbers the elements of a set")
                        continue
                if not st.is_set(it):
                    continue
                n += 1
                w = ordered_body(st, fn, x)
                if w:
                    rep(x, "iterates a set and " + w)
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp,
                                ast.DictComp)):
                if not any(st.is_set(g.iter) for g in x.generators):
                    continue
                n += 1
                if isinstance(x, ast.DictComp):
                    continue
                if not orderless_use(x, parents):
                    rep(x, "builds a sequence from a set")
            elif isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Name) and f.id in (
                        "list", "tuple", "enumerate", "iter", "zip", "map",
                        "filter", "bytes", "reversed", "next"):
                    if any(st.is_set(a) for a in x.args):
                        p = parents.get(id(x))
                        if isinstance(p, ast.For) and p.iter is x:
                            continue
                        n += 1
                        if not orderless_use(x, parents):
                            rep(x, f"{f.id}() of a set")
                elif isinstance(f, ast.Attribute) and f.attr == "pop" and \
                        not x.args and st.is_set(f.value):
                    n += 1
                    rep(x, "takes an arbitrary element of a set")
                elif isinstance(f, ast.Attribute) and f.attr in (
                        "join", "extend") and any(
                        st.is_set(a) for a in x.args):
                    n += 1
                    rep(x, f"{f.attr}() of a set")
            elif isinstance(x, ast.Starred) and st.is_set(x.value) and \
                    isinstance(parents.get(id(x)), (ast.List, ast.Tuple,
                                                    ast.Call)):
                n += 1
                rep(x, "unpacks a set in order")
            elif isinstance(x, ast.YieldFrom) and st.is_set(x.value):
                rep(x, "yields the elements of a set")
    ctx.count("set_iterations_checked", n)
    return out


def orderless_use(x, parents):
    p = parents.get(id(x))
    while isinstance(p, (ast.Call,)) and isinstance(p.func, ast.Name):
        if p.func.id in ORDERLESS:
            return True
        if p.func.id in ("list", "tuple", "map", "filter", "iter"):
            p = parents.get(id(p))
            continue
        return False
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and \
            p.func.attr in ("update", "union", "difference", "intersection",
                            "difference_update", "issubset"):
        return True
    if isinstance(p, ast.comprehension):
        return False
    if isinstance(p, ast.Compare):
        return isinstance(p.ops[0], (ast.In, ast.NotIn))
    return False


def ordered_body(st, fn, loop):
    var = {y.id for y in ast.walk(loop.target) if isinstance(y, ast.Name)}
    dep = set(var)
    effects = False
    for x in ast.walk(loop):
        if isinstance(x, ast.Assign):
            if any(isinstance(y, ast.Name) and y.id in dep
                   for y in ast.walk(x.value)):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        dep.add(t.id)
    inside = {id(y) for y in ast.walk(loop)}
    used_after = {y.id for y in ast.walk(fn.node)
                  if isinstance(y, ast.Name) and isinstance(
                      y.ctx, ast.Load) and id(y) not in inside
                  and y.lineno >= loop.lineno}

    def mentions(e):
        return e is not None and any(isinstance(y, ast.Name) and y.id in dep
                                     for y in ast.walk(e))
    for x in ast.walk(loop):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            if x.func.attr in ("append", "extend", "insert", "write",
                               "appendleft") and any(
                    mentions(a) for a in x.args):
                tgt = root_of(x.func.value)
                if isinstance(tgt, ast.Name) and sorted_later(
                        fn, tgt.id):
                    continue
                return f"{x.func.attr}s its elements in that order"
            if x.func.attr == "update" and not st.is_set(x.func.value) and \
                    any(mentions(a) for a in x.args) and not any(
                        isinstance(a, ast.Dict) for a in x.args):
                return "feeds its elements in that order"
            effects = True
        elif isinstance(x, ast.Return) and mentions(x.value):
            return "returns one of its elements"
        elif isinstance(x, (ast.Yield,)) and mentions(x.value):
            return "yields its elements"
        elif isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name) and t.id in used_after and \
                        mentions(x.value) and t.id not in var:
                    return f"keeps an arbitrary element in {t.id}"
        elif isinstance(x, ast.AugAssign) and mentions(x.value):
            if isinstance(x.op, (ast.FloorDiv, ast.Mod, ast.Pow,
                                 ast.LShift, ast.RShift)):
                return "folds its elements in that order"
            v = x.value
            if isinstance(v, (ast.List, ast.Tuple)) or (
                    isinstance(v, ast.Name) and isinstance(x.op, ast.Add)
                    and bytes_target(fn, x.target)):
                return "concatenates its elements in that order"
            if isinstance(x.op, ast.Add) and bytes_target(fn, x.target):
                return "concatenates its elements in that order"
    return None


def bytes_target(fn, t):
    if not isinstance(t, ast.Name):
        return False
    for x in ast.walk(fn.node):
        v = None
        if isinstance(x, ast.Assign) and any(
                isinstance(y, ast.Name) and y.id == t.id for y in x.targets):
            v = x.value
        elif isinstance(x, ast.AnnAssign) and isinstance(
                x.target, ast.Name) and x.target.id == t.id:
            v = x.value
        if v is None:
            continue
        if isinstance(v, ast.Constant) and isinstance(v.value, (bytes, str)):
            return True
        if isinstance(v, (ast.List, ast.Tuple, ast.JoinedStr)):
            return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id in ("bytes", "bytearray", "Bytes", "list",
                              "tuple", "str"):
            return True
    return False


def sorted_later(fn, name):
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr == "sort" \
                    and isinstance(x.func.value, ast.Name) and \
                    x.func.value.id == name:
                return True
            if isinstance(x.func, ast.Name) and x.func.id in (
                    "sorted", "set", "frozenset", "sum", "len") and any(
                    isinstance(a, ast.Name) and a.id == name
                    for a in x.args):
                return True
    return False
