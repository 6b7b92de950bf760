"""Static classes of expressions: which number type, which container.

The repository is fully annotated, so one pass over a function body from its
annotations, the field annotations of the classes and the return annotations
of the callees tells the class of nearly every arithmetic operand.  A name
that is bound to values of different classes has no class: nothing is
concluded about it.
"""
import ast

NUM = "ethereum_types.numeric."
BITS = {"U256": 256, "U64": 64, "U32": 32, "U8": 8}
UNSIGNED = {"Uint", "U256", "U64", "U32", "U8"}
LISTS = {"List", "list", "MutableSequence", "Sequence", "deque"}
DICTS = {"Dict", "dict", "Mapping", "MutableMapping"}
SETS = {"Set", "set", "FrozenSet", "frozenset"}

INT = ("num", "int")
BOOL = ("bool",)
BYTES = ("bytes",)
STR = ("str",)


def num(t):
    """Name of the number class, or None."""
    return t[1] if t is not None and t[0] == "num" else None


def join(a, b):
    return a if a == b else None


def union(ts):
    """One of several classes, each known; or None."""
    flat = []
    for t in ts:
        for x in (t[1:] if t is not None and t[0] == "union" else (t,)):
            if x is None or x[0] != "cls":
                return None
            if x not in flat:
                flat.append(x)
    return flat[0] if len(flat) == 1 else ("union",) + tuple(flat)


class NumTypes:
    def __init__(self, tree):
        self.tree = tree
        self._fn = {}
        self._ann = {}
        self._const = {}
        self._field = {}
        self._stores = None
        self._stable = {}

    # --------------------------------------------------- fields never stored
    def stores(self):
        """attr name -> [(function, base expression)] of every store."""
        if self._stores is None:
            r = self._stores = {}
            for f in self.tree.functions():
                own = f.node.args.args[0].arg if f.cls is not None and \
                    f.node.name == "__init__" and f.node.args.args else None
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.ctx, (ast.Store, ast.Del)):
                        if isinstance(x.value, ast.Name) and \
                                x.value.id == own:
                            continue
                        r.setdefault(x.attr, []).append((f, x.value))
        return self._stores

    def stable(self, cls, attr):
        """A field of an immutable type that nothing assigns once the object
        is constructed."""
        key = (cls, attr)
        r = self._stable.get(key)
        if r is None:
            r = False
            c = self.tree.get_class(cls)
            if c is not None:
                t = self.field(c, attr)
                if t is not None and t[0] in ("num", "bool", "bytes", "str"):
                    r = True
                    for f, b in self.stores().get(attr, ()):
                        bt = self.of(f).get(id(b))
                        if bt is None or bt[0] != "cls" or bt[1] == cls or \
                                self.related(bt[1], c):
                            r = False
                            break
            self._stable[key] = r
        return r

    def related(self, q, c):
        d = self.tree.get_class(q)
        return d is None or q in self.tree.ancestors(c) or \
            c.qual in self.tree.ancestors(d)

    # ----------------------------------------------------------- annotations
    def ann(self, mod, a, depth=0):
        if a is None or depth > 12:
            return None
        key = (mod.name, id(a))
        if key in self._ann:
            return self._ann[key][1]
        r = self._ann1(mod, a, depth)
        self._ann[key] = (a, r)
        return r

    def _ann1(self, mod, a, depth):
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                try:
                    a = ast.parse(a.value, mode="eval").body
                except SyntaxError:
                    return None
                return self._ann1(mod, a, depth + 1)
            return None
        if isinstance(a, ast.Subscript):
            n = self.last(a.value)
            el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if n == "Optional":
                return self.ann(mod, el[0], depth + 1)
            if n in ("Final", "ClassVar", "Annotated"):
                return self.ann(mod, el[0], depth + 1)
            if n in LISTS:
                return ("list", self.ann(mod, el[0], depth + 1))
            if n in DICTS and len(el) == 2:
                return ("dict", self.ann(mod, el[1], depth + 1),
                        self.ann(mod, el[0], depth + 1),
                        self.nonnull(mod, el[1]))
            if n in SETS:
                return ("set", self.ann(mod, el[0], depth + 1))
            if n in ("Tuple", "tuple"):
                if len(el) == 2 and isinstance(el[1], ast.Constant) and \
                        el[1].value is Ellipsis:
                    return ("list", self.ann(mod, el[0], depth + 1))
                return ("tuple",) + tuple(self.ann(mod, x, depth + 1)
                                          for x in el)
            if n == "Type":
                c = self.ann(mod, el[0], depth + 1)
                return ("type", c) if c is not None else None
            if n == "Union":
                ts = [self.ann(mod, x, depth + 1) for x in el
                      if not (isinstance(x, ast.Constant)
                              and x.value is None)]
                r = ts[0]
                for t in ts[1:]:
                    r = join(r, t)
                return r if r is not None else union(ts)
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            ts = []
            for x in (a.left, a.right):
                if not (isinstance(x, ast.Constant) and x.value is None):
                    ts.append(self.ann(mod, x, depth + 1))
            r = ts[0]
            for t in ts[1:]:
                r = join(r, t)
            return r if r is not None else union(ts)
        try:
            s = self.tree.resolve_expr(mod, a)
        except RecursionError:
            return None
        return self.of_sym(s, depth)

    def nonnull(self, mod, a, depth=0):
        """No value of this annotation is None."""
        if depth > 8:
            return False
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                try:
                    return self.nonnull(mod, ast.parse(
                        a.value, mode="eval").body, depth + 1)
                except SyntaxError:
                    return False
            return False
        if isinstance(a, ast.Subscript):
            n = self.last(a.value)
            if n in LISTS or n in DICTS or n in SETS or n in ("Tuple",
                                                              "tuple"):
                return True
            if n == "Union":
                return all(self.nonnull(mod, x, depth + 1)
                           for x in getattr(a.slice, "elts", [a.slice]))
            a = a.value
            if n in ("Optional", "Final", "Annotated"):
                return False
        if isinstance(a, ast.BinOp):
            return self.nonnull(mod, a.left, depth + 1) and \
                self.nonnull(mod, a.right, depth + 1)
        try:
            s = self.tree.resolve_expr(mod, a)
        except RecursionError:
            return False
        if s is None:
            return False
        if s.kind == "class":
            return True
        if s.kind == "ext":
            return s.qual.startswith("ethereum_types.")
        if s.kind == "builtin":
            return s.qual in ("int", "bool", "bytes", "bytearray", "str",
                              "list", "dict", "set", "tuple")
        if s.kind == "const" and isinstance(s.node, (
                ast.Subscript, ast.Name, ast.Attribute, ast.BinOp)):
            return self.nonnull(s.mod, s.node, depth + 1)
        return False

    @staticmethod
    def last(e):
        return e.id if isinstance(e, ast.Name) else getattr(e, "attr", "")

    def of_sym(self, s, depth=0):
        if s is None:
            return None
        if s.kind == "ext":
            q = s.qual
            if q.startswith("ethereum_types.numeric."):
                n = q.rpartition(".")[2]
                return ("num", n) if n in UNSIGNED else None
            if q.startswith("ethereum_types.bytes."):
                return BYTES
            return None
        if s.kind == "builtin":
            return {"int": INT, "bool": BOOL, "bytes": BYTES,
                    "bytearray": BYTES, "str": STR, "list": ("list", None),
                    "dict": ("dict", None, None, False),
                    "set": ("set", None)}.get(s.qual)
        if s.kind == "class":
            if any(q.startswith("ethereum_types.bytes.") or
                   q == "builtins.bytes"
                   for q in self.tree.ancestors(s.node)):
                return BYTES
            return ("cls", s.node.qual)
        if s.kind == "const":
            return self.ann(s.mod, s.node, depth + 1) if isinstance(
                s.node, (ast.Subscript, ast.Name, ast.Attribute,
                         ast.BinOp)) else None
        return None

    def field(self, cls, name):
        key = (cls.qual, name)
        if key not in self._field:
            r = None
            for c in self.tree.mro(cls):
                for n, a, _ in c.fields:
                    if n == name:
                        r = self.ann(c.mod, a)
                        break
                else:
                    m = c.methods.get(name)
                    if m is not None:
                        if any(self.last(d) in ("property",
                                                "cached_property")
                               for d in m.node.decorator_list):
                            r = self.ann(m.mod, m.node.returns)
                        break
                    continue
                break
            self._field[key] = r
        return self._field[key]

    def const(self, sym):
        if sym.qual in self._const:
            return self._const[sym.qual]
        self._const[sym.qual] = None
        sc = Scope(self, sym.mod, None, {})
        r = sc.expr(sym.node) if isinstance(sym.node, ast.expr) else None
        self._const[sym.qual] = r
        return r

    # -------------------------------------------------------------- functions
    def of(self, fn):
        r = self._fn.get(id(fn.node))
        if r is None:
            sc = Scope(self, fn.mod, fn.cls, {})
            sc.function(fn.node, fn.cls)
            r = (fn.node, sc.types)
            self._fn[id(fn.node)] = r
        return r[1]


class Scope:
    def __init__(self, nt, mod, cls, env):
        self.nt, self.mod, self.cls = nt, mod, cls
        self.tree = nt.tree
        self.env = env
        self.types = {}
        self.declared = {}
        self.bound = set()
        self.sites = {}

    # every binding of a name contributes; disagreement means no class
    def bind(self, name, t):
        self.sites.setdefault(name, []).append(t)

    def function(self, node, cls):
        a = node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        for i, x in enumerate(ps):
            t = self.nt.ann(self.mod, x.annotation)
            if i == 0 and cls is not None and x.annotation is None and not \
                    any(NumTypes.last(d) == "staticmethod"
                        for d in node.decorator_list):
                t = ("cls", cls.qual)
                if any(NumTypes.last(d) == "classmethod"
                       for d in node.decorator_list):
                    t = ("type", t)
            self.env[x.arg] = t
            self.declared[x.arg] = t
        self.bound = set(self.env)
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                              ast.Del)):
                self.bound.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.bound.add(x.name)
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and \
                    x is not node:
                self.bound.add(x.name)
                for y in x.args.posonlyargs + x.args.args + \
                        x.args.kwonlyargs:
                    if y.annotation is not None:
                        t = self.nt.ann(self.mod, y.annotation)
                        if y.arg in self.declared and \
                                self.declared[y.arg] != t:
                            t = None
                        self.declared[y.arg] = t
                    else:
                        self.declared[y.arg] = None
                    self.bound.add(y.arg)
            elif isinstance(x, ast.Lambda):
                for y in x.args.args:
                    self.declared[y.arg] = None
                    self.bound.add(y.arg)
        for x in ast.walk(node):
            if isinstance(x, ast.AnnAssign) and isinstance(
                    x.target, ast.Name):
                t = self.nt.ann(self.mod, x.annotation)
                n = x.target.id
                if n in self.declared and self.declared[n] != t:
                    t = None
                self.declared[n] = t
        self.env.update(self.declared)
        for _ in range(4):
            self.sites = {}
            self.types = {}
            for s in node.body:
                self.stmt(s)
            new = dict(self.declared)
            for n, ts in self.sites.items():
                if n in self.declared:
                    # narrowing of a wider declaration is not followed
                    continue
                r = ts[0]
                for t in ts[1:]:
                    r = join(r, t)
                new[n] = r
            if new == self.env:
                break
            self.env = new

    # ------------------------------------------------------------- statements
    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in s.body:
                self.stmt(x)
            return
        if isinstance(s, ast.ClassDef):
            return
        if isinstance(s, ast.Assign):
            t = self.expr(s.value)
            for x in s.targets:
                self.target(x, t)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value)
            self.target(s.target, self.nt.ann(self.mod, s.annotation))
            return
        if isinstance(s, ast.AugAssign):
            t = self.expr(s.value)
            c = self.expr(s.target)
            r = self.arith(s.op, c, t)
            if isinstance(s.target, ast.Name):
                self.bind(s.target.id, r if r is not None else c)
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            t = self.expr(s.iter)
            self.target(s.target, self.element(t))
            for x in s.body + s.orelse:
                self.stmt(x)
            return
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                t = self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, None)
            for x in s.body:
                self.stmt(x)
            return
        if isinstance(s, ast.Try):
            for h in s.handlers:
                if h.name:
                    self.bind(h.name, None)
                for x in h.body:
                    self.stmt(x)
            for x in s.body + s.orelse + s.finalbody:
                self.stmt(x)
            return
        if isinstance(s, ast.Match):
            self.expr(s.subject)
            for c in s.cases:
                if c.guard is not None:
                    self.expr(c.guard)
                for y in ast.walk(c.pattern):
                    if isinstance(y, (ast.MatchAs, ast.MatchStar)) and y.name:
                        self.bind(y.name, None)
                for x in c.body:
                    self.stmt(x)
            return
        for f in ast.iter_child_nodes(s):
            if isinstance(f, ast.expr):
                self.expr(f)
            elif isinstance(f, ast.stmt):
                self.stmt(f)

    def target(self, x, t):
        if isinstance(x, ast.Name):
            self.bind(x.id, t)
            self.types[id(x)] = t
        elif isinstance(x, (ast.Tuple, ast.List)):
            for i, y in enumerate(x.elts):
                if isinstance(y, ast.Starred):
                    self.target(y.value, None)
                elif t is not None and t[0] == "tuple" and \
                        len(t) == len(x.elts) + 1:
                    self.target(y, t[i + 1])
                elif t is not None and t[0] == "list":
                    self.target(y, t[1])
                else:
                    self.target(y, None)
        elif isinstance(x, (ast.Attribute, ast.Subscript)):
            self.expr(x)

    def element(self, t):
        if t is None:
            return None
        if t[0] in ("list", "set"):
            return t[1]
        if t[0] == "dict":
            return t[2]
        if t[0] == "bytes":
            return INT
        if t[0] == "tuple" and len(t) > 1:
            r = t[1]
            for x in t[2:]:
                r = join(r, x)
            return r
        return None

    # ------------------------------------------------------------ expressions
    def expr(self, e):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is not None:
            t = m(e)
        else:
            t = None
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.expr(c)
        self.types[id(e)] = t
        return t

    def x_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, bytes):
            return BYTES
        if isinstance(v, str):
            return STR
        return None

    def x_Name(self, e):
        if e.id in self.bound or e.id in self.env:
            return self.env.get(e.id)
        s = self.tree.resolve(self.mod, e.id)
        return self.sym_value(s)

    def sym_value(self, s):
        if s is None:
            return None
        if s.kind == "const":
            return self.nt.const(s)
        if s.kind in ("class", "ext", "builtin"):
            t = self.nt.of_sym(s)
            return ("type", t) if t is not None else None
        return None

    def static(self, e):
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or root.id in self.bound or \
                root.id in self.env:
            return None
        try:
            return self.tree.resolve_expr(self.mod, e)
        except RecursionError:
            return None

    def x_Attribute(self, e):
        s = self.static(e)
        if s is not None:
            if s.kind == "ext" and s.qual.rpartition(".")[2] in (
                    "MAX_VALUE",):
                b = self.expr(e.value)
                return b[1] if b is not None and b[0] == "type" else None
            return self.sym_value(s)
        b = self.expr(e.value)
        if b is None:
            return None
        if b[0] == "type" and e.attr == "MAX_VALUE":
            return b[1]
        if b[0] == "cls":
            c = self.tree.get_class(b[1])
            if c is not None:
                return self.nt.field(c, e.attr)
        if b[0] == "union":
            # the members without the attribute abort: they do not decide
            ts = []
            for x in b[1:]:
                c = self.tree.get_class(x[1])
                if c is None:
                    return None
                if any(n == e.attr for k in self.tree.mro(c)
                       for n, _, _ in k.fields):
                    ts.append(self.nt.field(c, e.attr))
            r = ts[0] if ts else None
            for t in ts[1:]:
                r = join(r, t)
            return r
        return None

    def x_Tuple(self, e):
        return ("tuple",) + tuple(self.expr(x) for x in e.elts)

    def x_List(self, e):
        ts = [self.expr(x) for x in e.elts]
        r = ts[0] if ts else None
        for t in ts[1:]:
            r = join(r, t)
        return ("list", r)

    def x_Dict(self, e):
        for k in e.keys:
            if k is not None:
                self.expr(k)
        ts = [self.expr(x) for x in e.values]
        r = ts[0] if ts else None
        for t in ts[1:]:
            r = join(r, t)
        return ("dict", r, None, False)

    def x_Starred(self, e):
        self.expr(e.value)
        return None

    def x_NamedExpr(self, e):
        t = self.expr(e.value)
        self.target(e.target, t)
        return t

    def x_IfExp(self, e):
        self.expr(e.test)
        return join(self.expr(e.body), self.expr(e.orelse))

    def x_BoolOp(self, e):
        ts = [self.expr(x) for x in e.values]
        r = ts[0]
        for t in ts[1:]:
            r = join(r, t)
        return r

    def x_Compare(self, e):
        self.expr(e.left)
        for x in e.comparators:
            self.expr(x)
        return BOOL

    def x_UnaryOp(self, e):
        t = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            return BOOL
        if isinstance(e.op, ast.USub):
            return INT if num(t) is not None else None
        return t

    def x_BinOp(self, e):
        return self.arith(e.op, self.expr(e.left), self.expr(e.right))

    def arith(self, op, a, b):
        na, nb = num(a), num(b)
        if isinstance(op, ast.Div):
            return None
        if na is not None and nb is not None:
            return a if na == nb else None
        if isinstance(op, (ast.Add, ast.Sub, ast.FloorDiv, ast.Mod)):
            # the operators of the unsigned types accept their own type only
            for x, y, n in ((a, b, na), (b, a, nb)):
                if n in UNSIGNED and y is None:
                    return x
        if a == BOOL or b == BOOL:
            return None
        if isinstance(op, ast.Add) and a is not None and a == b:
            return a if a[0] != "tuple" else None
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x is not None and x[0] in ("bytes", "str", "list"):
                    return x
        if isinstance(op, ast.Mod) and a == STR:
            return STR
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and \
                a is not None and a[0] == "set" and a == b:
            return a
        return None

    def x_Subscript(self, e):
        b = self.expr(e.value)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.expr(x)
            if b is not None and b[0] in ("bytes", "str", "list"):
                return b
            return None
        self.expr(e.slice)
        if b is None:
            return None
        if b[0] == "list":
            return b[1]
        if b[0] == "dict":
            return b[1]
        if b[0] == "bytes":
            return INT
        if b[0] == "tuple" and isinstance(e.slice, ast.Constant) and \
                isinstance(e.slice.value, int) and \
                -len(b) < e.slice.value < len(b) - 1:
            i = e.slice.value
            return b[1:][i]
        return None

    def comp(self, e, elts):
        for g in e.generators:
            t = self.expr(g.iter)
            self.target(g.target, self.element(t))
            # comprehension variables are visible at once
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name) and x.id not in self.env:
                    self.env[x.id] = self.types.get(id(x))
            for c in g.ifs:
                self.expr(c)
        return [self.expr(x) for x in elts]

    def x_ListComp(self, e):
        return ("list", self.comp(e, [e.elt])[0])

    def x_GeneratorExp(self, e):
        return ("list", self.comp(e, [e.elt])[0])

    def x_SetComp(self, e):
        return ("set", self.comp(e, [e.elt])[0])

    def x_DictComp(self, e):
        k, v = self.comp(e, [e.key, e.value])
        return ("dict", v, k, False)

    def x_Lambda(self, e):
        self.expr(e.body)
        return None

    def x_Call(self, e):
        args = [self.expr(a) for a in e.args]
        for k in e.keywords:
            self.expr(k.value)
        f = e.func
        s = self.static(f)
        if s is not None:
            if s.kind == "func":
                if s.node.cls is not None and s.qual.rpartition(".")[2] in (
                        "from_be_bytes", "from_le_bytes"):
                    return None
                return self.nt.ann(s.node.mod, s.node.node.returns)
            if s.kind == "class":
                return self.nt.of_sym(s)
            if s.kind == "ext":
                q = s.qual
                n = q.rpartition(".")[2]
                if q == "typing.cast" and len(e.args) == 2:
                    return self.nt.ann(self.mod, e.args[0])
                if q == "ethereum_types.numeric.ulen":
                    return ("num", "Uint")
                if n in ("from_be_bytes", "from_le_bytes", "from_signed"):
                    c = q.rpartition(".")[0].rpartition(".")[2]
                    return ("num", c) if c in UNSIGNED else None
                return self.nt.of_sym(s)
            if s.kind == "builtin":
                return self.builtin(s.qual, e, args)
            if s.kind == "const":
                t = self.sym_value(s)
                return t[1] if t is not None and t[0] == "type" else None
            return None
        if isinstance(f, ast.Attribute):
            b = self.expr(f.value)
            return self.method(f.attr, b, args, e)
        t = self.expr(f)
        return t[1] if t is not None and t[0] == "type" else None

    def builtin(self, n, e, args):
        if n in ("len", "ord", "int", "hash", "id"):
            return INT
        if n in ("min", "max"):
            if len(args) == 1:
                return self.element(args[0])
            r = args[0] if args else None
            for t in args[1:]:
                r = join(r, t)
            return r
        if n == "sum" and args:
            t = self.element(args[0])
            if len(args) == 2 or any(k.arg == "start" for k in e.keywords):
                return t
            return INT if t == INT else None
        if n == "abs" and args:
            return args[0]
        if n == "range":
            return ("list", INT)
        if n in ("bytes", "bytearray"):
            return BYTES
        if n in ("str", "hex", "repr"):
            return STR
        if n == "bool":
            return BOOL
        if n in ("list", "sorted", "reversed", "tuple") and args:
            x = self.element(args[0])
            return ("list", x)
        if n in ("set", "frozenset"):
            return ("set", self.element(args[0]) if args else None)
        if n == "enumerate" and args:
            return ("list", ("tuple", INT, self.element(args[0])))
        if n == "zip":
            return ("list", ("tuple",) + tuple(self.element(a)
                                               for a in args))
        if n == "divmod" and len(args) == 2:
            t = self.arith(ast.FloorDiv(), *args)
            return ("tuple", t, t)
        if n == "pow" and args:
            return args[0]
        return None

    def method(self, name, b, args, e):
        if b is None:
            return None
        if b[0] == "type":
            if name in ("from_be_bytes", "from_le_bytes", "from_signed"):
                return b[1]
            if name == "from_bytes" and b[1] == INT:
                return INT
        if b[0] == "num":
            if name.startswith("wrapping_"):
                return b
            if name == "to_signed":
                return INT
            if name == "bit_length":
                return INT if b == INT else ("num", "Uint")
            if name.startswith(("to_be_bytes", "to_le_bytes", "to_bytes")):
                return BYTES
        if b[0] == "dict":
            if name in ("get", "pop", "setdefault"):
                return b[1]
            if name == "items":
                return ("list", ("tuple", b[2], b[1]))
            if name == "values":
                return ("list", b[1])
            if name == "keys":
                return ("list", b[2])
            if name == "copy":
                return b
        if b[0] in ("list", "set"):
            if name == "pop":
                return b[1]
            if name == "copy":
                return b
            if name in ("index", "count"):
                return INT
        if b[0] in ("bytes", "str"):
            if name in ("ljust", "rjust", "strip", "lstrip", "rstrip",
                        "replace", "zfill", "lower", "upper"):
                return b
            if name == "hex":
                return STR
            if name == "encode":
                return BYTES
            if name in ("find", "index", "count"):
                return INT
        if b[0] == "cls":
            c = self.tree.get_class(b[1])
            if c is not None:
                m = self.tree.find_method(c, name)
                if m is not None:
                    return self.nt.ann(m.mod, m.node.returns)
        return None
