"""Program model: modules, symbols, import resolution, classes.

Nothing here executes repository code; modules are parsed with `ast`.
"""
import ast
import builtins
import os

FORKS = ["frontier", "homestead", "dao_fork", "tangerine_whistle",
         "spurious_dragon", "byzantium", "constantinople", "istanbul",
         "muir_glacier", "berlin", "london", "arrow_glacier", "gray_glacier",
         "paris", "shanghai", "cancun", "prague", "osaka"]

PACKAGES = ["ethereum", "ethereum_spec_tools", "ethereum_optimized"]


class AnalysisBroken(Exception):
    """An anchor vanished: the analysis has no answer."""


class Sym:
    __slots__ = ("kind", "qual", "node", "mod")

    def __init__(self, kind, qual, node=None, mod=None):
        self.kind = kind      # mod func class const ext builtin
        self.qual = qual
        self.node = node
        self.mod = mod

    def __repr__(self):
        return f"<{self.kind} {self.qual}>"


class Func:
    __slots__ = ("qual", "node", "mod", "cls", "params", "_h", "closure")

    def __init__(self, qual, node, mod, cls=None):
        self.qual, self.node, self.mod, self.cls = qual, node, mod, cls
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.closure = None


class Class:
    __slots__ = ("qual", "node", "mod", "methods", "fields", "bases",
                 "consts")

    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod = qual, node, mod
        self.methods = {}
        self.fields = []          # (name, annotation, default or None)
        self.consts = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = Func(f"{qual}.{st.name}", st, mod,
                                             self)
            elif isinstance(st, ast.AnnAssign) and \
                    isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    self.consts[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Name):
                        self.consts[tg.id] = st.value


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.defs = {}
        self.order = []
        self._collect(tree.body)

    def pkg(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]

    def _put(self, name, val):
        if name not in self.defs:
            self.order.append(name)
        self.defs[name] = val

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._put(st.name, Func(f"{self.name}.{st.name}", st, self))
                if any(isinstance(x, (ast.FunctionDef, ast.ClassDef))
                       and any(isinstance(d, ast.Call)
                               and isinstance(d.func, ast.Name)
                               and d.func.id == "add_item"
                               for d in x.decorator_list)
                       for x in ast.walk(st)):
                    # functions defined to be patched into another module
                    self._collect([x for x in st.body if isinstance(x, (
                        ast.FunctionDef, ast.ClassDef, ast.If, ast.Assign))])
            elif isinstance(st, ast.ClassDef):
                self._put(st.name, Class(f"{self.name}.{st.name}", st, self))
            elif isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Name):
                        self._put(tg.id, ("const", st.value))
                    elif isinstance(tg, ast.Tuple):
                        for i, e in enumerate(tg.elts):
                            if isinstance(e, ast.Name):
                                self._put(e.id, ("const", ast.Subscript(
                                    value=st.value,
                                    slice=ast.Constant(value=i),
                                    ctx=ast.Load())))
            elif isinstance(st, ast.AnnAssign) and st.value is not None and \
                    isinstance(st.target, ast.Name):
                self._put(st.target.id, ("const", st.value))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self._put(a.asname, ("import", a.name))
                    else:
                        self._put(a.name.split(".")[0],
                                  ("import", a.name.split(".")[0]))
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    p = self.pkg().split(".")
                    if st.level > 1:
                        p = p[:-(st.level - 1)]
                    base = ".".join(p + ([base] if base else []))
                for a in st.names:
                    self._put(a.asname or a.name,
                              ("import", f"{base}.{a.name}"))
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    self._collect(h.body)


class Tree:
    """A set of modules: either /repo's current source or the reference."""

    def __init__(self, label):
        self.label = label
        self.modules = {}
        self._rs = {}
        self._kinds = None
        self.parse_errors = []

    # -- construction
    @classmethod
    def from_dir(cls, src, label="repo", packages=PACKAGES, only=None):
        t = cls(label)
        for p in packages:
            root = os.path.join(src, p)
            for d, dirs, files in os.walk(root):
                dirs[:] = sorted(x for x in dirs if x != "__pycache__")
                for f in sorted(files):
                    if not f.endswith(".py"):
                        continue
                    full = os.path.join(d, f)
                    rel = os.path.relpath(full, src)[:-3].split(os.sep)
                    is_pkg = rel[-1] == "__init__"
                    if is_pkg:
                        rel = rel[:-1]
                    name = ".".join(rel)
                    if only and not only(name):
                        continue
                    with open(full, encoding="utf-8") as fh:
                        text = fh.read()
                    try:
                        tree = ast.parse(text, full)
                    except SyntaxError as e:
                        t.parse_errors.append((full, str(e)))
                        continue
                    t.modules[name] = Module(name, full, tree, is_pkg)
        return t

    def add_source(self, name, text, is_pkg, path=None):
        self.modules[name] = Module(name, path or name,
                                    ast.parse(text), is_pkg)

    # -- resolution
    def resolve(self, mod, name, _depth=0):
        """Resolve a module-level name seen from module `mod`."""
        key = (mod.name, name)
        r = self._rs.get(key)
        if r is None:
            r = self._resolve(mod, name, _depth)
            self._rs[key] = r
        return r

    def _resolve(self, mod, name, depth):
        if depth > 20:
            return Sym("ext", f"{mod.name}.{name}")
        d = mod.defs.get(name)
        if d is None:
            sub = f"{mod.name}.{name}"
            if mod.is_pkg and sub in self.modules:
                return Sym("mod", sub, None, self.modules[sub])
            if hasattr(builtins, name):
                return Sym("builtin", name)
            return Sym("unknown", name)
        if isinstance(d, Func):
            return Sym("func", d.qual, d, mod)
        if isinstance(d, Class):
            return Sym("class", d.qual, d, mod)
        if d[0] == "import":
            return self.resolve_dotted(d[1], depth + 1)
        if d[0] == "const":
            e = d[1]
            if isinstance(e, (ast.Name, ast.Attribute)):
                s = self.resolve_expr(mod, e, depth + 1)
                if s is not None and s.kind in ("func", "class", "ext",
                                                "builtin"):
                    if not (s.kind == "ext" and isinstance(e, ast.Attribute)):
                        return s
            return Sym("const", f"{mod.name}.{name}", e, mod)
        return Sym("unknown", name)

    def resolve_dotted(self, dotted, depth=0):
        if dotted in self.modules:
            # a name in the parent package may shadow the submodule
            return Sym("mod", dotted, None, self.modules[dotted])
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = ".".join(parts[:i])
            if m in self.modules:
                cur = Sym("mod", m, None, self.modules[m])
                for p in parts[i:]:
                    cur = self.member(cur, p, depth + 1)
                    if cur is None:
                        return Sym("ext", dotted)
                return cur
        return Sym("ext", dotted)

    def member(self, sym, name, depth=0):
        if sym.kind == "mod":
            r = self.resolve(sym.mod, name, depth)
            if r.kind == "unknown" or (r.kind == "builtin"
                                       and name not in sym.mod.defs):
                sub = f"{sym.qual}.{name}"
                if sub in self.modules:
                    return Sym("mod", sub, None, self.modules[sub])
                return None
            return r
        if sym.kind == "class":
            c = sym.node
            f = self.find_method(c, name)
            if f is not None:
                return Sym("func", f.qual, f, f.mod)
            cc = self.find_class_const(c, name)
            if cc is not None:
                return Sym("const", f"{cc[0].qual}.{name}", cc[1], cc[0].mod)
            return None
        if sym.kind == "ext":
            return Sym("ext", f"{sym.qual}.{name}")
        return None

    def resolve_expr(self, mod, e, depth=0):
        if isinstance(e, ast.Name):
            return self.resolve(mod, e.id, depth)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value, depth)
            if b is None or b.kind not in ("mod", "class", "ext"):
                return None
            return self.member(b, e.attr, depth)
        return None

    def union_of(self, mod, a, depth=0):
        """Qualified names of the members of a Union annotation, or None."""
        r = self._union(mod, a, 0)
        if r is None or len(r) < 2 or len(set(r)) != len(r):
            return None
        cs = [self.get_class(q) for q in r]
        for x in cs:
            if x is None:
                continue
            anc = self.ancestors(x) - {x.qual}
            if any(q in anc for q in r):
                return None
        return tuple(r)

    def _union(self, mod, a, depth):
        if a is None or depth > 8:
            return None
        if isinstance(a, ast.Constant):
            if a.value is None:
                return ["None"]
            if isinstance(a.value, str):
                try:
                    return self._union(mod, ast.parse(
                        a.value, mode="eval").body, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            x = self._union(mod, a.left, depth + 1)
            y = self._union(mod, a.right, depth + 1)
            return x + y if x is not None and y is not None else None
        if isinstance(a, ast.Subscript):
            n = a.value.id if isinstance(a.value, ast.Name) else getattr(
                a.value, "attr", "")
            el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if n not in ("Union", "Optional"):
                return None
            out = ["None"] if n == "Optional" else []
            for x in el:
                y = self._union(mod, x, depth + 1)
                if y is None:
                    return None
                out = out + y
            return out
        if isinstance(a, (ast.Name, ast.Attribute)):
            s = self.resolve_expr(mod, a)
            if s is None:
                return None
            if s.kind == "class":
                return [s.qual]
            if s.kind == "ext" and s.qual.startswith("ethereum_types."):
                return [s.qual]
            if s.kind == "const" and s.node is not None and s.mod is not None:
                return self._union(s.mod, s.node, depth + 1)
        return None

    def bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            s = self.resolve_expr(c.mod, b)
            if s is not None:
                out.append(s)
        return out

    def mro(self, c, seen=None):
        seen = seen if seen is not None else set()
        if c.qual in seen:
            return []
        seen.add(c.qual)
        out = [c]
        for b in self.bases(c):
            if b.kind == "class":
                out.extend(self.mro(b.node, seen))
        return out

    def ancestors(self, c):
        """Qualified names of all (project and external) ancestors."""
        out = set()
        for k in self.mro(c):
            out.add(k.qual)
            for b in self.bases(k):
                out.add(b.qual)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_class_const(self, c, name):
        for k in self.mro(c):
            if name in k.consts:
                return k, k.consts[name]
        return None

    def all_fields(self, c):
        out = {}
        for k in reversed(self.mro(c)):
            for n, a, v in k.fields:
                out.pop(n, None)
                out[n] = (a, v, k)
        return out

    # -- enumeration
    def functions(self, prefix=None):
        for m in self.modules.values():
            if prefix and not (m.name == prefix
                               or m.name.startswith(prefix + ".")):
                continue
            for n in m.order:
                d = m.defs[n]
                if isinstance(d, Func):
                    yield d
                elif isinstance(d, Class):
                    yield from d.methods.values()

    def classes(self, prefix=None):
        for m in self.modules.values():
            if prefix and not (m.name == prefix
                               or m.name.startswith(prefix + ".")):
                continue
            for n in m.order:
                d = m.defs[n]
                if isinstance(d, Class):
                    yield d

    def get_func(self, qual):
        s = self.resolve_dotted(qual)
        return s.node if s.kind == "func" and s.qual == qual else None

    def get_class(self, qual):
        s = self.resolve_dotted(qual)
        return s.node if s.kind == "class" and s.qual == qual else None

    # -- value kinds from annotations
    INTS = {"Uint", "U256", "U64", "U32", "U8", "int", "Gas"}
    SEQS = {"Bytes", "bytes", "Bytes0", "Bytes1", "Bytes4", "Bytes8",
            "Bytes20", "Bytes32", "Bytes48", "Bytes64", "Bytes96",
            "Bytes256", "Address", "Hash32", "Hash64", "Root", "Bloom",
            "VersionedHash", "bytearray", "str", "List", "Tuple", "Set",
            "Dict", "Sequence", "list", "tuple", "set", "dict",
            "MutableSequence", "FrozenSet", "Mapping", "KZGCommitment",
            "KZGProof"}

    def ann_kind(self, a):
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, ast.Subscript):
            b = a.value
            n = b.id if isinstance(b, ast.Name) else getattr(b, "attr", "")
            if n == "Optional":
                k = self.ann_kind(a.slice)
                return k
            if n == "Union":
                el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [
                    a.slice]
                ks = {self.ann_kind(e) for e in el if not (
                    isinstance(e, ast.Name) and e.id == "Bytes0")}
                return ks.pop() if len(ks) == 1 else None
            if n in self.SEQS:
                return "seq"
            return None
        n = a.id if isinstance(a, ast.Name) else getattr(a, "attr", "")
        if n in self.INTS:
            return "int"
        if n in self.SEQS:
            return "seq"
        if n == "bool":
            return "flag"
        if n and n[0].isupper() and n not in ("Any", "T", "K", "V", "None"):
            if n in ("FixedUnsigned", "Unsigned"):
                return "int"
            return "obj"
        return None

    def field_kinds(self):
        if self._kinds is None:
            d = {}
            for c in self.classes():
                for n, a, _ in c.fields:
                    k = self.ann_kind(a)
                    d.setdefault(n, set()).add(k)
            self._kinds = {n: next(iter(s)) for n, s in d.items()
                           if len(s) == 1 and None not in s}
        return self._kinds


def strip_doc(node):
    """Body without docstring."""
    b = node.body
    if b and isinstance(b[0], ast.Expr) and \
            isinstance(b[0].value, ast.Constant) and \
            isinstance(b[0].value.value, str):
        return b[1:]
    return b


def norm_dump(node):
    """Formatting/annotation/docstring independent dump of a definition."""
    class S(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            self.generic_visit(n)
            n.body = strip_doc(n) or [ast.Pass()]
            n.returns = None
            return n

        def visit_ClassDef(self, n):
            self.generic_visit(n)
            n.body = strip_doc(n) or [ast.Pass()]
            return n
    import copy
    n = S().visit(copy.deepcopy(node))
    return ast.dump(n)
