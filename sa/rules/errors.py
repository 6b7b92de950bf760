"""Errors that are constructed but not raised; handlers that swallow."""
import ast

from . import rule
from ..project import Func
from .purity import resolver

EXT_EXC = ("Error", "Exception", "Warning", "Exit", "Interrupt",
           "StopIteration", "InvalidSignature", "Empty", "Full")


def exc_class(ctx, s):
    """Symbol denotes an exception class."""
    if s is None:
        return False
    if s.kind == "class":
        anc = ctx.act.ancestors(s.node)
        return any(is_builtin_exc(a) or a.rpartition(".")[2].endswith(
            ("Exception", "Error")) for a in anc)
    if s.kind == "builtin":
        return is_builtin_exc(s.qual)
    if s.kind == "ext":
        n = s.qual.rpartition(".")[2]
        return n.endswith(EXT_EXC) and n[:1].isupper()
    return False


def is_builtin_exc(n):
    import builtins
    v = getattr(builtins, n, None)
    return isinstance(v, type) and issubclass(v, BaseException)


def exc_value(ctx, res, e):
    """The expression constructs (or names) an exception."""
    if isinstance(e, ast.Call):
        return exc_class(ctx, res(e.func))
    if isinstance(e, (ast.Name, ast.Attribute)):
        return exc_class(ctx, res(e))
    if isinstance(e, ast.IfExp):
        return exc_value(ctx, res, e.body) or exc_value(ctx, res, e.orelse)
    if isinstance(e, ast.BoolOp):
        return any(exc_value(ctx, res, v) for v in e.values)
    return False


@rule("C23")
def dropped_errors(ctx):
    """Every exception that is constructed is raised or handed on."""
    out = []
    sites = raises = 0
    for fn in ctx.act.functions():
        res, loc = resolver(ctx, fn)
        made = {}
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Raise):
                raises += 1
            if isinstance(x, ast.Call) and exc_class(ctx, res(x.func)):
                sites += 1
            if isinstance(x, ast.Expr) and exc_value(ctx, res, x.value):
                out.append(ctx.finding(
                    "dropped-error", fn.qual, fn.mod, x,
                    f"{ast.unparse(x.value)[:70]} is constructed and "
                    "dropped"))
            elif isinstance(x, ast.Expr) and isinstance(
                    x.value, ast.Compare) and any(
                    exc_value(ctx, res, y) for y in x.value.comparators):
                out.append(ctx.finding(
                    "dropped-error", fn.qual, fn.mod, x,
                    "a comparison with an error is dropped"))
            elif isinstance(x, ast.Assign) and isinstance(
                    x.value, ast.Call) and exc_class(
                    ctx, res(x.value.func)) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name):
                made[x.targets[0].id] = x
        for name, x in made.items():
            if not any(isinstance(y, ast.Name) and y.id == name
                       and isinstance(y.ctx, ast.Load)
                       for y in ast.walk(fn.node)):
                out.append(ctx.finding(
                    "dropped-error", fn.qual, fn.mod, x,
                    f"{name} holds an error that is never raised"))
    ctx.count("exception_constructions", sites)
    ctx.count("raise_statements", raises)
    return out


BROAD = {"Exception", "BaseException", "ethereum.exceptions.EthereumException"}


def handlers(tree, ctx):
    """[(fn, handler, caught qualified names, swallows)]"""
    out = []
    for fn in tree.functions():
        for x in ast.walk(fn.node):
            if not isinstance(x, ast.Try):
                continue
            for h in x.handlers:
                ts = []
                if h.type is None:
                    ts = ["BaseException"]
                else:
                    el = h.type.elts if isinstance(h.type, ast.Tuple) \
                        else [h.type]
                    for e in el:
                        s = tree.resolve_expr(fn.mod, e)
                        ts.append(s.qual if s is not None
                                  else ast.unparse(e))
                out.append((fn, h, ts, not ends_raise(h.body)))
    return out


def ends_raise(body):
    """Every path through the statements raises."""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and ends_raise(s.body) and \
                ends_raise(s.orelse):
            return True
        if isinstance(s, ast.With) and ends_raise(s.body):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
    return False


@rule("C23")
def broad_handlers(ctx):
    """A handler that swallows catches no more than the reviewed ones do."""
    out = []
    want = {}
    for fn, h, ts, sw in handlers(ctx.ref, ctx):
        if sw:
            for t in ts:
                want.setdefault(fn.mod.name, set()).add(t)
    n = 0
    for fn, h, ts, sw in handlers(ctx.act, ctx):
        n += 1
        if not sw:
            continue
        for t in ts:
            if t in want.get(fn.mod.name, ()):
                continue
            if fn.mod.name not in ctx.ref.modules:
                # a module of its own: moved code; judged by its callers
                continue
            if t in BROAD or subsumes(ctx, fn, t, want.get(fn.mod.name, ())):
                out.append(ctx.finding(
                    "broad-handler", fn.qual, fn.mod, h,
                    f"swallows every {t.rpartition('.')[2]}"))
    ctx.count("handlers_checked", n)
    return out


def subsumes(ctx, fn, t, ws):
    """t is a strict ancestor of a class that the module swallows."""
    for w in ws:
        c = ctx.act.resolve_dotted(w)
        if c.kind == "class" and t != w and t in ctx.act.ancestors(c.node):
            return True
    return False


@rule("C23")
def unreachable(ctx):
    """No check sits behind a statement that always leaves the block."""
    out = []
    n = 0
    for fn in ctx.act.functions():
        for x in ast.walk(fn.node):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(x, f, None)
                if not isinstance(b, list):
                    continue
                n += 1
                for i, s in enumerate(b[:-1]):
                    if isinstance(s, (ast.Return, ast.Raise, ast.Continue,
                                      ast.Break)):
                        rest = b[i + 1:]
                        if any(isinstance(y, ast.Raise) for r in rest
                               for y in ast.walk(r)):
                            out.append(ctx.finding(
                                "unreachable-error", fn.qual, fn.mod, s,
                                "the error raised below is unreachable"))
                        break
            if isinstance(x, ast.Try) and x.finalbody:
                for s in x.finalbody:
                    for y in ast.walk(s):
                        if isinstance(y, ast.Return):
                            out.append(ctx.finding(
                                "swallowed-error", fn.qual, fn.mod, y,
                                "return in finally discards the error"))
            if isinstance(x, ast.With):
                for it in x.items:
                    e = it.context_expr
                    if isinstance(e, ast.Call):
                        s = ctx.act.resolve_expr(fn.mod, e.func)
                        if s is not None and s.qual == "contextlib.suppress":
                            for a in e.args:
                                t = ctx.act.resolve_expr(fn.mod, a)
                                if t is not None and t.qual in BROAD:
                                    out.append(ctx.finding(
                                        "swallowed-error", fn.qual, fn.mod,
                                        x, f"suppresses every {t.qual}"))
    ctx.count("blocks_checked", n)
    return out
