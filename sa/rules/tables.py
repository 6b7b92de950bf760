"""Precompile addresses and fork activation against their EIPs."""
import ast

from . import rule
from .order import precompiles
from .. import structure, terms as tm
from ..project import FORKS, AnalysisBroken

PRE = [("frontier", {1, 2, 3, 4}), ("byzantium", {5, 6, 7, 8}),
       ("istanbul", {9}), ("cancun", {10}),
       ("prague", {11, 12, 13, 14, 15, 16, 17}), ("osaka", {0x100})]
# the function that each address computes, by the primitive it relies on
ACTIVATION = [
    ("frontier", "block", 0), ("homestead", "block", 1150000),
    ("dao_fork", "block", 1920000), ("tangerine_whistle", "block", 2463000),
    ("spurious_dragon", "block", 2675000), ("byzantium", "block", 4370000),
    ("constantinople", "block", 7280000), ("istanbul", "block", 9069000),
    ("muir_glacier", "block", 9200000), ("berlin", "block", 12244000),
    ("london", "block", 12965000), ("arrow_glacier", "block", 13773000),
    ("gray_glacier", "block", 15050000), ("paris", "block", 15537394),
    ("shanghai", "time", 1681338455), ("cancun", "time", 1710338135),
    ("prague", "time", 1746612311), ("osaka", None, None)]
KIND = {"ethereum.fork_criteria.ByBlockNumber": "block",
        "ethereum.fork_criteria.ByTimestamp": "time",
        "ethereum.fork_criteria.Unscheduled": None}


@rule("C16")
def precompile_addresses(ctx):
    """Exactly the fork's addresses are precompiles, one function each."""
    out = []
    n = 0
    pre = precompiles(ctx)
    for i, fk in enumerate(FORKS):
        want = set()
        for f, s in PRE:
            if FORKS.index(f) <= i:
                want |= s
        d = pre.get(fk)
        m = ctx.act.modules[f"ethereum.{fk}.vm.precompiled_contracts.mapping"]
        if d is None or any(isinstance(a, tuple) for a in d):
            ctx.notes.append(f"precompile table of {fk} is not literal")
            continue
        n += len(want | set(d))
        for a in sorted(set(d) - want):
            out.append(ctx.finding(
                "precompile-address", f"{fk} PRE_COMPILED_CONTRACTS",
                d[a][2], d[a][1], f"{a:#x} is not a precompile of {fk}"))
        for a in sorted(want - set(d)):
            out.append(ctx.finding(
                "precompile-address", f"{fk} PRE_COMPILED_CONTRACTS", m, 0,
                f"{a:#x} is missing"))
        seen = {}
        for a, (fn, ln, mod) in d.items():
            if fn is None:
                continue
            if fn.qual in seen:
                out.append(ctx.finding(
                    "precompile-address", f"{fk} PRE_COMPILED_CONTRACTS",
                    mod, ln, f"{a:#x} and {seen[fn.qual]:#x} run the same "
                    "function"))
            seen[fn.qual] = a
    ctx.count("precompile_addresses_decided", n)
    return out


def criteria(ctx, fk):
    """(kind, value, node) of FORK_CRITERIA, or None if not literal."""
    m = ctx.act.modules.get(f"ethereum.{fk}")
    if m is None:
        raise AnalysisBroken(f"no package {fk}")
    s = ctx.act.resolve(m, "FORK_CRITERIA")
    if s is None or s.kind != "const":
        return None
    e = s.node
    if not isinstance(e, ast.Call):
        return None
    c = ctx.act.resolve_expr(s.mod, e.func)
    if c is None or c.kind != "class" or c.node.qual not in KIND:
        return None
    k = KIND[c.node.qual]
    if k is None:
        return None, None, e, s.mod
    args = list(e.args) + [x.value for x in e.keywords]
    if len(args) != 1:
        return None
    t = structure.const_term(ctx.plain_ev(), s.mod, args[0])
    if t is None or t.op != "int":
        return None
    return k, t.args[0], e, s.mod


@rule("C22")
def activation_table(ctx):
    """Activation points are Mainnet's and strictly increasing."""
    out = []
    n = 0
    last = None
    for fk, kind, val in ACTIVATION:
        c = criteria(ctx, fk)
        if c is None:
            ctx.notes.append(f"activation of {fk} is not literal")
            continue
        k, v, node, mod = c
        n += 1
        if (k, v) != (kind, val):
            out.append(ctx.finding(
                "activation", f"ethereum.{fk}.FORK_CRITERIA", mod, node,
                f"{fk} activates by {k} {v} instead of {kind} {val}"))
    ctx.count("activation_points_decided", n)
    return out
