"""Tracing only observes (C28)."""
import ast

from . import rule
from ..modref import MUTATORS
from ..project import AnalysisBroken, Func

TRACE = "ethereum.trace"
ETH = "ethereum.exceptions.EthereumException"
# attributes that hold immutable values: reading one gives no alias
EXTRA_MUT = MUTATORS | {"__setattr__", "__setitem__", "__delitem__",
                        "__delattr__", "appendleft", "popleft", "rotate"}
KEEPS = {"get", "values", "items", "keys", "copy", "__iter__"}
ITER = {"iter", "reversed", "enumerate", "zip", "filter", "map", "list",
        "sorted", "tuple", "vars", "max", "min", "next"}


def tracer_calls(ctx):
    """Functions that receive the live frame: tracers' __call__ and any
    function installed or written as a tracer."""
    out = []
    for c in ctx.act.classes():
        if c.qual == f"{TRACE}.EvmTracer":
            continue
        if f"{TRACE}.EvmTracer" in ctx.act.ancestors(c) or \
                f"{TRACE}.TraceEvent" in annots(ctx, c):
            m = c.methods.get("__call__")
            if m is not None:
                out.append((m, 1))
    for f in ctx.act.functions():
        if f.cls is None and f.mod.name == TRACE and len(f.params) == 2 and \
                f.params[0] == "evm":
            out.append((f, 0))
    return out


def annots(ctx, c):
    m = c.methods.get("__call__")
    out = set()
    if m is not None:
        for a in m.node.args.args:
            if a.annotation is not None:
                s = ctx.act.resolve_expr(m.mod, a.annotation) if isinstance(
                    a.annotation, (ast.Name, ast.Attribute)) else None
                if s is not None:
                    out.add(s.qual)
    return out


class Taint:
    """Aliases of the frame inside one function."""

    def __init__(self, ctx, fn, params, selfattrs, kinds, work):
        self.ctx, self.fn, self.kinds = ctx, fn, kinds
        self.names = set(params)
        self.sa, self.work = selfattrs, work
        self.me = fn.params[0] if fn.cls is not None and fn.params else None
        self.found = []
        self.n = 0
        self.local = {x.id for x in ast.walk(fn.node) if isinstance(
            x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(fn.params)

    def alias(self, e):
        if isinstance(e, ast.Name):
            return e.id in self.names
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.me:
                return (self.fn.cls.qual, e.attr) in self.sa
            return self.kinds.get(e.attr) not in ("int", "flag") and \
                self.alias(e.value)
        if isinstance(e, (ast.Subscript, ast.Starred)):
            return self.alias(e.value)
        if isinstance(e, ast.IfExp):
            return self.alias(e.body) or self.alias(e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(self.alias(x) for x in e.values)
        if isinstance(e, ast.NamedExpr):
            return self.alias(e.value)
        if isinstance(e, (ast.Tuple, ast.List)):
            return any(self.alias(x) for x in e.elts)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in ("getattr", "vars",
                                                    "iter", "next",
                                                    "reversed") and e.args:
                return self.alias(e.args[0])
            if isinstance(f, ast.Attribute) and f.attr in ("get", "values",
                                                           "items"):
                return self.alias(f.value)
        return False

    def bind(self, t):
        if isinstance(t, ast.Name):
            if t.id not in self.names:
                self.names.add(t.id)
                self.changed = True
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x)
        elif isinstance(t, ast.Starred):
            self.bind(t.value)
        elif isinstance(t, ast.Attribute) and isinstance(
                t.value, ast.Name) and t.value.id == self.me:
            k = (self.fn.cls.qual, t.attr)
            if k not in self.sa:
                self.sa.add(k)
                self.changed = True

    def run(self):
        body = list(ast.walk(self.fn.node))
        while True:
            self.changed = False
            for x in body:
                if isinstance(x, ast.Assign) and self.alias(x.value):
                    for t in x.targets:
                        self.bind(t)
                elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and \
                        x.value is not None and self.alias(x.value):
                    self.bind(x.target)
                elif isinstance(x, (ast.For, ast.comprehension)) and \
                        self.alias(x.iter):
                    self.bind(x.target)
                elif isinstance(x, ast.withitem) and x.optional_vars is not \
                        None and self.alias(x.context_expr):
                    self.bind(x.optional_vars)
            if not self.changed:
                break
        for x in body:
            self.look(x)

    def rep(self, node, text):
        self.found.append((self.fn, node, text))

    def look(self, x):
        if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign,
                          ast.Delete, ast.For)):
            ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [
                x.target]
            for t in ts:
                for y in ([t] if not isinstance(t, (ast.Tuple, ast.List))
                          else t.elts):
                    self.n += 1
                    if isinstance(y, (ast.Attribute, ast.Subscript)) and \
                            self.alias(y.value):
                        self.rep(x, "writes " + ast.unparse(y))
                    elif isinstance(x, ast.AugAssign) and isinstance(
                            y, ast.Name) and y.id in self.names:
                        self.rep(x, f"changes {y.id} in place, which "
                                 f"aliases the frame")
        elif isinstance(x, ast.Call):
            f = x.func
            self.n += 1
            if isinstance(f, ast.Attribute) and f.attr in EXTRA_MUT and \
                    self.alias(f.value):
                self.rep(x, "calls " + ast.unparse(f))
                return
            if isinstance(f, ast.Name) and f.id in ("setattr", "delattr") \
                    and x.args and self.alias(x.args[0]):
                self.rep(x, f"calls {f.id} on the frame")
                return
            args = [(i, a) for i, a in enumerate(x.args) if self.alias(a)]
            kws = [k for k in x.keywords if self.alias(k.value)]
            if not args and not kws:
                return
            g, off = self.callee(f)
            if g is None:
                return
            ps = set()
            for i, _ in args:
                if i + off < len(g.params):
                    ps.add(g.params[i + off])
            for k in kws:
                if k.arg:
                    ps.add(k.arg)
            self.work.append((g, frozenset(ps)))
        elif isinstance(x, ast.Raise) and x.exc is not None:
            e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
            s = self.ctx.act.resolve_expr(self.fn.mod, e) if isinstance(
                e, (ast.Name, ast.Attribute)) and not (
                isinstance(e, ast.Name) and e.id in self.local) else None
            if s is not None and s.kind == "class" and \
                    ETH in self.ctx.act.ancestors(s.node):
                self.rep(x, f"raises {s.node.qual}, which execution handles")

    def callee(self, f):
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
                and f.value.id == self.me:
            m = self.ctx.act.find_method(self.fn.cls, f.attr)
            return (m, 1) if m is not None and not is_static(m) else (m, 0)
        if isinstance(f, (ast.Name, ast.Attribute)):
            r = f
            while isinstance(r, ast.Attribute):
                r = r.value
            if isinstance(r, ast.Name) and r.id not in self.local:
                s = self.ctx.act.resolve_expr(self.fn.mod, f)
                if s is not None and s.kind == "func":
                    return s.node, 0
                if s is not None and s.kind == "class":
                    m = self.ctx.act.find_method(s.node, "__init__")
                    return (m, 1) if m is not None else (None, 0)
        return None, 0


def is_static(m):
    return any(isinstance(d, ast.Name) and d.id == "staticmethod"
               for d in m.node.decorator_list)


@rule("C28")
def tracers_observe(ctx):
    """No tracer writes the frame or anything reached from it."""
    kinds = dict(ctx.act.field_kinds())
    start = tracer_calls(ctx)
    if len(start) < 3:
        raise AnalysisBroken("no tracers")
    sa = set()
    for _ in range(2):           # second round knows the stored aliases
        out, seen, n = {}, set(), 0
        work = [(f, frozenset(f.params[i:])) for f, i in start]
        for f, i in start:
            if f.cls is not None:
                for m in f.cls.methods.values():
                    work.append((m, frozenset()))
        while work:
            f, ps = work.pop()
            if (f.qual, ps) in seen:
                continue
            seen.add((f.qual, ps))
            t = Taint(ctx, f, ps, sa, kinds, work)
            t.run()
            n += t.n
            for fn, node, text in t.found:
                out[(fn.qual, node.lineno, text)] = ctx.finding(
                    "tracers-observe", fn.qual, fn.mod, node, text)
    ctx.count("tracer_functions", len({q for q, _ in seen}))
    ctx.count("tracer_stores_and_calls", n)
    return list(out.values())


@rule("C28")
def traces_are_ignored(ctx):
    """Execution passes values to the tracer and uses nothing it returns."""
    out = []
    n = 0
    tm = ctx.act.modules.get(TRACE)
    if tm is None:
        raise AnalysisBroken("no ethereum.trace")
    for fn in ctx.act.functions("ethereum"):
        if fn.mod is tm:
            continue
        stmts = set()
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                stmts.add(id(x.value))
        funcs = set()
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Call):
                funcs.add(id(x.func))
        for x in ast.walk(fn.node):
            if isinstance(x, (ast.Name, ast.Attribute)):
                s = ctx.act.resolve_expr(fn.mod, x)
                if s is None or s.mod is not tm or s.kind == "mod":
                    continue
                name = s.qual.rpartition(".")[2]
                if s.kind == "class":
                    continue
                if name != "evm_trace":
                    out.append(ctx.finding(
                        "traces-are-ignored", fn.qual, fn.mod, x,
                        f"execution uses {s.qual}"))
        for x in ast.walk(fn.node):
            if not isinstance(x, ast.Call) or not isinstance(
                    x.func, (ast.Name, ast.Attribute)):
                continue
            s = ctx.act.resolve_expr(fn.mod, x.func)
            if s is None or s.kind != "func" or \
                    s.node.qual != f"{TRACE}.evm_trace":
                continue
            n += 1
            if id(x) not in stmts:
                out.append(ctx.finding(
                    "traces-are-ignored", fn.qual, fn.mod, x,
                    "the result of the trace is used"))
            for a in list(x.args) + [k.value for k in x.keywords]:
                for y in ast.walk(a):
                    bad = effect(ctx, fn, y)
                    if bad:
                        out.append(ctx.finding(
                            "traces-are-ignored", fn.qual, fn.mod, y,
                            f"an argument of the trace {bad}"))
    for m in ctx.act.modules.values():
        if m is tm or not m.name.startswith("ethereum."):
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and not x.level and \
                    x.module == TRACE:
                for a in x.names:
                    if a.name in ("_evm_trace", "set_evm_trace"):
                        out.append(ctx.finding(
                            "traces-are-ignored", m.name, m, x,
                            f"execution uses {TRACE}.{a.name}"))
    ctx.count("trace_call_sites", n)
    if n < 100:
        raise AnalysisBroken("too few trace call sites")
    return out


def effect(ctx, fn, y):
    if isinstance(y, ast.NamedExpr):
        return "assigns"
    if isinstance(y, ast.Call):
        f = y.func
        if isinstance(f, ast.Attribute) and f.attr in EXTRA_MUT:
            return "changes " + ast.unparse(f.value)
        if isinstance(f, (ast.Name, ast.Attribute)):
            s = ctx.act.resolve_expr(fn.mod, f)
            if s is not None and s.kind == "func":
                i = ctx.act_infos.get(s.node.qual)
                if i is not None and i.mods:
                    return f"calls {s.node.qual}, which has effects"
    return None
