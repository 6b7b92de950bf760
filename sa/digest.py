"""Identity shortcut: definitions that are the same on both sides.

Two functions with the same syntax tree whose free names resolve to the same
definitions (constants and classes compared recursively) have the same
semantics relative to the shared boundary, so they need no evaluation.
"""
import ast

from .project import Func, Class, strip_doc


class Dump(ast.NodeVisitor):
    pass


def dump(node, skip_doc=True):
    out = []

    def go(n):
        if isinstance(n, ast.AST):
            out.append(type(n).__name__)
            for f in n._fields:
                if f in ("type_comment", "kind", "ctx", "type_ignores"):
                    continue
                v = getattr(n, f, None)
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if f == "returns":
                        continue
                    if f == "body":
                        v = strip_doc(n)
                elif isinstance(n, ast.ClassDef) and f == "body":
                    v = [x for x in n.body if not (
                        isinstance(x, ast.Expr)
                        and isinstance(x.value, ast.Constant))]
                go(v)
            out.append(")")
        elif isinstance(n, list):
            out.append("[")
            for x in n:
                go(x)
            out.append("]")
        else:
            out.append(repr(n))
    go(node)
    return " ".join(out)


def free_refs(tree, mod, node, bound):
    """Symbols of the maximal resolvable references in `node`."""
    out = []

    def go(n):
        if isinstance(n, ast.Attribute):
            root = n
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in bound:
                try:
                    s = tree.resolve_expr(mod, n)
                except RecursionError:
                    s = None
                if s is not None:
                    out.append((ast.dump(n), s))
                    return
            go(n.value)
            return
        if isinstance(n, ast.Name):
            if n.id not in bound:
                out.append((n.id, tree.resolve(mod, n.id)))
            return
        for c in ast.iter_child_nodes(n):
            go(c)
    go(node)
    return out


def local_names(fn_node):
    b = set()
    for x in ast.walk(fn_node):
        if isinstance(x, ast.arg):
            b.add(x.arg)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            b.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and \
                x is not fn_node:
            b.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            b.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                b.add((a.asname or a.name).split(".")[0])
    return b


class Same:
    """same(q): function q is identical on both sides."""

    def __init__(self, ref, act, common):
        self.ref, self.act, self.common = ref, act, common
        self.memo = {}

    def sym(self, a, b):
        if a.kind != b.kind or a.qual != b.qual:
            return False
        if a.kind == "func":
            return a.qual in self.common
        if a.kind == "const":
            return self.const(a, b)
        if a.kind == "class":
            return self.cls(a.node, b.node)
        return True

    def const(self, a, b):
        k = ("c", a.qual)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = True
        r = dump(a.node) == dump(b.node) and self.refs(
            a.mod, a.node, b.mod, b.node, set())
        self.memo[k] = r
        return r

    def refs(self, ma, na, mb, nb, bound):
        ra = free_refs(self.ref, ma, na, bound)
        rb = free_refs(self.act, mb, nb, bound)
        if len(ra) != len(rb):
            return False
        for (_, x), (_, y) in zip(ra, rb):
            if not self.sym(x, y):
                return False
        return True

    def cls(self, a, b):
        k = ("k", a.qual)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = True
        r = self.cls_shape(a, b)
        self.memo[k] = r
        return r

    def cls_shape(self, a, b):
        if set(a.methods) != set(b.methods):
            return False
        if [(n, dump(x) if x is not None else None) for n, x, _ in a.fields] \
                != [(n, dump(x) if x is not None else None)
                    for n, x, _ in b.fields]:
            return False
        if {n: dump(v) for n, v in a.consts.items()} != \
                {n: dump(v) for n, v in b.consts.items()}:
            return False
        for x, y in zip(a.node.decorator_list + a.node.bases,
                        b.node.decorator_list + b.node.bases):
            if dump(x) != dump(y) or not self.refs(a.mod, x, b.mod, y, set()):
                return False
        if len(a.node.bases) != len(b.node.bases) or \
                len(a.node.decorator_list) != len(b.node.decorator_list):
            return False
        for m in a.methods:
            if a.methods[m].qual not in self.common:
                return False
        for n, v in a.consts.items():
            if not self.refs(a.mod, v, b.mod, b.consts[n], set()):
                return False
        for (n, x, _), (_, y, _) in zip(a.fields, b.fields):
            if not self.refs(a.mod, x, b.mod, y, set()):
                return False
        return True

    def func(self, f, g):
        k = ("f", f.qual)
        if k in self.memo:
            return self.memo[k]
        r = dump(f.node) == dump(g.node) and self.refs(
            f.mod, f.node, g.mod, g.node, local_names(f.node))
        if r and f.cls is not None:
            r = g.cls is not None and self.cls(f.cls, g.cls)
        self.memo[k] = r
        return r

    def all_classes_same(self):
        if not hasattr(self, "_acs"):
            r = {c.qual: c for c in self.ref.classes()}
            a = {c.qual: c for c in self.act.classes()}
            self._acs = [q for q in r
                         if q not in a or not self.cls(r[q], a[q])]
        return self._acs
