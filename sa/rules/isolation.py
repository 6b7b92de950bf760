"""Each fork refers only to its own definitions (C22)."""
import ast

from . import rule
from .purity import locals_of
from ..project import FORKS, AnalysisBroken


def fork_of(q):
    p = (q or "").split(".")
    return p[1] if len(p) > 1 and p[0] == "ethereum" and p[1] in FORKS \
        else None


def allowed(fk, q):
    """The documented use of the predecessor: its trie's node encoding."""
    i = FORKS.index(fk)
    if i == 0:
        return False
    prev = f"ethereum.{FORKS[i - 1]}.trie"
    return q == prev or q.startswith(prev + ".")


@rule("C22")
def isolation(ctx):
    out = []
    n = nm = 0
    for m in ctx.act.modules.values():
        fk = fork_of(m.name)
        if fk is None:
            shared = m.name.split(".")[0] == "ethereum" and \
                m.name.split(".")[1:2] != ["genesis"]
            if not shared:
                continue
        nm += 1
        scopes = {}
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                loc = locals_of(f)
                for x in ast.walk(f):
                    scopes.setdefault(id(x), set()).update(loc)
        for x in ast.walk(m.tree):
            tgt = []
            if isinstance(x, ast.Import):
                tgt = [a.name for a in x.names]
            elif isinstance(x, ast.ImportFrom):
                base = x.module or ""
                if x.level:
                    p = m.pkg().split(".")
                    p = p[:len(p) - (x.level - 1)]
                    base = ".".join(p + ([base] if base else []))
                tgt = [f"{base}.{a.name}" for a in x.names]
            elif isinstance(x, (ast.Name, ast.Attribute)):
                r = x
                while isinstance(r, ast.Attribute):
                    r = r.value
                if not isinstance(r, ast.Name) or \
                        r.id in scopes.get(id(x), ()):
                    continue
                s = ctx.act.resolve_expr(m, x)
                if s is None or s.kind in ("builtin", "ext"):
                    continue
                n += 1
                q = s.qual if s.kind in ("module", "func", "class") else (
                    f"{s.mod.name}.x" if s.mod is not None else None)
                if s.kind in ("func", "class") and s.node is not None:
                    q = s.node.qual
                tgt = [q]
            elif isinstance(x, ast.Call):
                # a module looked up by name
                s = ctx.act.resolve_expr(m, x.func) if isinstance(
                    x.func, (ast.Name, ast.Attribute)) else None
                if s is not None and s.qual in (
                        "importlib.import_module", "__import__") and x.args \
                        and isinstance(x.args[0], ast.Constant):
                    tgt = [str(x.args[0].value)]
            for t in tgt:
                g = fork_of(t)
                if g is None or g == fk:
                    continue
                if fk is not None and allowed(fk, t):
                    continue
                out.append(ctx.finding(
                    "fork-isolation", m.name, m, x,
                    f"uses {t}, which belongs to {g}"))
    ctx.count("fork_modules_scanned", nm)
    ctx.count("references_resolved", n)
    if nm < 18 * 20 or n < 20000:
        raise AnalysisBroken("too few fork modules or references")
    return out
