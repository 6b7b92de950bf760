"""Only the state layer touches its own representation (C20)."""
import ast

from . import rule
from ..modref import MUTATORS
from ..project import FORKS, AnalysisBroken


@rule("C20")
def state_ownership(ctx):
    out = []
    n = 0
    for fk in FORKS:
        priv, owners = {}, set()
        for md, cls in (("state", "State"), ("state", "TransientStorage"),
                        ("trie", "Trie")):
            m = ctx.act.modules.get(f"ethereum.{fk}.{md}")
            s = ctx.act.resolve(m, cls) if m is not None else None
            if s is None or s.kind != "class":
                if cls == "TransientStorage":
                    continue
                raise AnalysisBroken(f"no {cls} in {fk}")
            owners.add(s.node.mod.name)
            for f in s.node.fields:
                priv[f[0]] = cls
        for m in ctx.act.modules.values():
            if not (m.name == f"ethereum.{fk}" or
                    m.name.startswith(f"ethereum.{fk}.")):
                continue
            if m.name in owners or m.name not in ctx.ref.modules:
                continue
            writes = set()
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    writes.add(id(x))
                elif isinstance(x, ast.Subscript) and isinstance(
                        x.ctx, (ast.Store, ast.Del)) and isinstance(
                        x.value, ast.Attribute):
                    writes.add(id(x.value))
                elif isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in MUTATORS \
                        and isinstance(x.func.value, ast.Attribute):
                    writes.add(id(x.func.value))
            for x in ast.walk(m.tree):
                if not isinstance(x, ast.Attribute):
                    continue
                n += 1
                if x.attr not in priv:
                    continue
                if x.attr.startswith("_") or (
                        x.attr == "created_accounts" and id(x) in writes):
                    out.append(ctx.finding(
                        "state-ownership", m.name, m, x,
                        f"{'changes' if id(x) in writes else 'reads'} "
                        f"{priv[x.attr]}.{x.attr} outside the state layer"))
    ctx.count("attribute_accesses_scanned", n)
    if n < 5000:
        raise AnalysisBroken("too few attribute accesses")
    return out
