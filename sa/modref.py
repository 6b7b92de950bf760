"""Interprocedural mod/ref effect inference over access paths.

For every function: which access paths rooted at its parameters it may read
(`reads`), may write (`mods`), and whether it may abort (`raises`).  A path is
(param_index, attr, attr, ..., '*'), '*' meaning the object's own content.
"""
import ast

from .project import Func, Class

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "add",
            "discard", "update", "setdefault", "popitem", "sort", "reverse",
            "appendleft", "popleft", "write", "symmetric_difference_update",
            "difference_update", "intersection_update"}
OPAQUE = {"created_accounts"}
MAXLEN = 5


def step(path, attr):
    if path and path[-1] == "*":
        return path
    if attr == "*" or attr.startswith("_") or attr in OPAQUE:
        return path + ("*",)
    if len(path) >= MAXLEN:
        return path + ("*",)
    return path + (attr,)


class Info:
    __slots__ = ("reads", "mods", "raises", "rets")

    def __init__(self):
        self.reads = set()
        self.mods = set()
        self.raises = False
        self.rets = set()

    def sig(self):
        return (len(self.reads), len(self.mods), self.raises,
                len(self.rets))


class _Scan:
    def __init__(self, tree, infos, fn):
        self.tree, self.infos, self.fn = tree, infos, fn
        self.info = infos[fn.qual]
        self.alias = {p: {(i,)} for i, p in enumerate(fn.params)}
        n = len(fn.params)
        a = fn.node.args
        extra = ([a.vararg.arg] if a.vararg else []) + [
            x.arg for x in a.kwonlyargs] + (
            [a.kwarg.arg] if a.kwarg else [])
        for i, p in enumerate(extra):
            self.alias[p] = {(n + i,)}
        self.locals = set(self.alias)
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.locals.add(x.id)

    def run(self):
        for _ in range(2):
            for st in self.fn.node.body:
                self.stmt(st)

    # paths of an expression
    def paths(self, e):
        if isinstance(e, ast.Name):
            return self.alias.get(e.id, set())
        if isinstance(e, ast.Attribute):
            return {step(p, e.attr) for p in self.paths(e.value)}
        if isinstance(e, ast.Subscript):
            return {step(p, "*") for p in self.paths(e.value)}
        if isinstance(e, ast.IfExp):
            return self.paths(e.body) | self.paths(e.orelse)
        if isinstance(e, ast.NamedExpr):
            return self.paths(e.value)
        if isinstance(e, ast.Call):
            s = self.callee(e)
            if isinstance(s, Func):
                inf = self.infos.get(s.qual)
                if inf and inf.rets:
                    return self.map_paths(e, s, inf.rets)
            if isinstance(e.func, ast.Attribute) and e.func.attr in (
                    "get", "setdefault", "values", "items", "keys"):
                return {step(p, "*") for p in self.paths(e.func.value)}
        return set()

    def callee(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id in self.locals:
            return "dyn"
        s = None
        root = f
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id not in self.locals:
            s = self.tree.resolve_expr(self.fn.mod, f)
        if s is not None:
            if s.kind == "func":
                return s.node
            return s.kind
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and self.fn.cls is not None \
                    and self.fn.params and f.value.id == self.fn.params[0]:
                m = self.tree.find_method(self.fn.cls, f.attr)
                if m is not None:
                    return m
            if isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == "super":
                return "method"
            return "method"
        if isinstance(f, ast.Subscript):
            return "dyn"
        return "dyn"

    def arg_exprs(self, e, fn):
        """Map callee parameter index -> argument expression."""
        out = {}
        off = 0
        if fn.cls is not None and isinstance(e.func, ast.Attribute) and \
                not any(isinstance(d, ast.Name) and d.id == "staticmethod"
                        for d in fn.node.decorator_list):
            s = self.tree.resolve_expr(self.fn.mod, e.func) if not (
                isinstance(e.func.value, ast.Name)
                and e.func.value.id in self.locals) else None
            if s is None:
                out[0] = e.func.value
                off = 1
        for i, a in enumerate(e.args):
            if isinstance(a, ast.Starred):
                break
            out[i + off] = a
        allp = fn.params + [x.arg for x in fn.node.args.kwonlyargs]
        n = len(fn.params) + (1 if fn.node.args.vararg else 0)
        for k in e.keywords:
            if k.arg in fn.params:
                out[fn.params.index(k.arg)] = k.value
            elif k.arg in allp:
                kw = [x.arg for x in fn.node.args.kwonlyargs]
                out[n + kw.index(k.arg)] = k.value
        return out

    def map_paths(self, e, fn, ps):
        ax = self.arg_exprs(e, fn)
        out = set()
        for p in ps:
            a = ax.get(p[0])
            if a is None:
                continue
            for q in self.paths(a):
                for x in p[1:]:
                    q = step(q, x)
                out.add(q)
        return out

    def expr(self, e):
        if e is None:
            return
        if isinstance(e, (ast.Attribute, ast.Name)):
            self.info.reads |= self.paths(e)
            b = e
            while isinstance(b, ast.Attribute):
                b = b.value
            if not isinstance(b, ast.Name):
                self.expr(b)
            return
        if isinstance(e, ast.Subscript):
            self.info.reads |= self.paths(e)
            self.expr(e.value)
            self.expr(e.slice)
            return
        if isinstance(e, ast.Call):
            c = self.callee(e)
            for a in list(e.args) + [k.value for k in e.keywords]:
                self.expr(a.value if isinstance(a, ast.Starred) else a)
            if isinstance(e.func, ast.Attribute):
                self.expr(e.func.value)
            elif not isinstance(e.func, ast.Name):
                self.expr(e.func)
            if isinstance(c, Func):
                inf = self.infos.get(c.qual)
                if inf is not None:
                    self.info.mods |= self.map_paths(e, c, inf.mods)
                    self.info.reads |= self.map_paths(e, c, inf.reads)
                    self.info.raises |= inf.raises
            elif c == "dyn":
                self.info.raises = True
                for a in list(e.args) + [k.value for k in e.keywords]:
                    for p in self.paths(a):
                        self.info.mods.add(step(p, "*"))
                        self.info.reads.add(step(p, "*"))
            elif c == "method" and isinstance(e.func, ast.Attribute):
                if e.func.attr in MUTATORS:
                    for p in self.paths(e.func.value):
                        self.info.mods.add(step(p, "*"))
                        self.info.reads.add(step(p, "*"))
                else:
                    for p in self.paths(e.func.value):
                        self.info.reads.add(step(p, "*"))
            else:
                for a in list(e.args) + [k.value for k in e.keywords]:
                    for p in self.paths(a):
                        self.info.reads.add(p)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            for g in e.generators:
                self.expr(g.iter)
                self.bind(g.target, {step(p, "*") for p in
                                     self.paths(g.iter)})
                for i in g.ifs:
                    self.expr(i)
            if isinstance(e, ast.DictComp):
                self.expr(e.key)
                self.expr(e.value)
            else:
                self.expr(e.elt)
            return
        if isinstance(e, ast.Lambda):
            self.expr(e.body)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value)
            self.bind(e.target, self.paths(e.value))
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c)

    def bind(self, tgt, ps):
        if isinstance(tgt, ast.Name):
            if ps:
                self.alias.setdefault(tgt.id, set())
                self.alias[tgt.id] = self.alias[tgt.id] | ps
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            for x in tgt.elts:
                self.bind(x, {step(p, "*") for p in ps})
        elif isinstance(tgt, ast.Attribute):
            self.info.mods |= self.paths(tgt)
            self.expr(tgt.value)
        elif isinstance(tgt, ast.Subscript):
            self.info.mods |= self.paths(tgt)
            self.expr(tgt.value)
            self.expr(tgt.slice)
        elif isinstance(tgt, ast.Starred):
            self.bind(tgt.value, ps)

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in s.body:
                self.stmt(x)
            return
        if isinstance(s, ast.ClassDef):
            return
        if isinstance(s, ast.Assign):
            self.expr(s.value)
            for t in s.targets:
                self.bind(t, self.paths(s.value))
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value)
                self.bind(s.target, self.paths(s.value))
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value)
            self.expr(s.target)
            if not isinstance(s.target, ast.Name):
                self.bind(s.target, set())
        elif isinstance(s, ast.For):
            self.expr(s.iter)
            self.bind(s.target, {step(p, "*") for p in self.paths(s.iter)})
            for x in s.body + s.orelse:
                self.stmt(x)
        elif isinstance(s, ast.While):
            self.expr(s.test)
            for x in s.body + s.orelse:
                self.stmt(x)
        elif isinstance(s, ast.If):
            self.expr(s.test)
            for x in s.body + s.orelse:
                self.stmt(x)
        elif isinstance(s, ast.With):
            for it in s.items:
                self.expr(it.context_expr)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars,
                              self.paths(it.context_expr))
            for x in s.body:
                self.stmt(x)
        elif isinstance(s, ast.Try):
            for x in s.body:
                self.stmt(x)
            for h in s.handlers:
                for x in h.body:
                    self.stmt(x)
            for x in s.orelse + s.finalbody:
                self.stmt(x)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.expr(s.value)
                self.info.rets |= self.paths(s.value)
        elif isinstance(s, ast.Raise):
            self.info.raises = True
            if s.exc is not None:
                self.expr(s.exc)
        elif isinstance(s, ast.Assert):
            self.info.raises = True
            self.expr(s.test)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.bind(t, set())
        elif isinstance(s, ast.Expr):
            self.expr(s.value)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.expr(c)
                elif isinstance(c, ast.stmt):
                    self.stmt(c)


def infer(tree, funcs):
    """Fixpoint over the given functions (closed under calls within tree)."""
    infos = {f.qual: Info() for f in funcs}
    # call graph for a worklist
    scans = {f.qual: f for f in funcs}
    callers = {}
    for f in funcs:
        sc = _Scan(tree, infos, f)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                c = sc.callee(x)
                if isinstance(c, Func) and c.qual in infos:
                    callers.setdefault(c.qual, set()).add(f.qual)
    work = list(scans)
    inq = set(work)
    rounds = 0
    while work:
        q = work.pop()
        inq.discard(q)
        rounds += 1
        if rounds > 60 * len(funcs) + 1000:
            break
        before = infos[q].sig()
        _Scan(tree, infos, scans[q]).run()
        if infos[q].sig() != before:
            for c in callers.get(q, ()):
                if c not in inq:
                    inq.add(c)
                    work.append(c)
    # prune: drop reads subsumed; keep deterministic order
    return infos
