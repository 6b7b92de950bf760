"""Every snapshot is committed or rolled back exactly once (C11)."""
from . import rule
from . import evm as E
from .. import terms as tm
from ..project import FORKS, AnalysisBroken
from ..terms import FALSE, band, bnot

BEGIN, COMMIT, ROLL = ("begin_transaction", "commit_transaction",
                       "rollback_transaction")


def region(ctx):
    """Functions of the forks that take or give back a snapshot."""
    out = []
    for fn in ctx.act.functions():
        p = fn.qual.split(".")
        if p[0] != "ethereum" or len(p) < 3 or p[1] not in FORKS:
            continue
        if fn.mod.name.endswith(".state") or fn.qual not in ctx.pair.common:
            continue
        out.append(fn)
    return out


@rule("C11")
def snapshot_pairing(ctx):
    out = []
    nf = npaths = 0
    for fn in region(ctx):
        mod = fn.mod.name.rpartition(".")[2]
        if mod not in ("interpreter", "fork", "system", "message",
                       "eoa_delegation"):
            continue
        r = E.summary(ctx, ("func", fn.qual))
        if r is None:
            continue
        s = r[2]
        ev = []
        for what, lv, nd, kw, where in s.log:
            if what != "call":
                continue
            n = kw["qual"].rpartition(".")[2]
            if n in (BEGIN, COMMIT, ROLL):
                ev.append((n, lv, nd))
        if not ev:
            continue
        nf += 1
        for end, g0 in [("return", s.na)] + aborts(s):
            paths = [(g0, 0, ())]
            for n, lv, nd in ev:
                nx = []
                for g, depth, tr in paths:
                    h = band(g, bnot(lv))
                    if h is not FALSE:
                        nx.append((h, depth, tr))
                    h = band(g, lv)
                    if h is not FALSE:
                        nx.append((h, depth + (1 if n == BEGIN else -1),
                                   tr + (n,)))
                paths = nx
                if len(paths) > 4000:
                    break
            for g, depth, tr in paths:
                npaths += 1
                if depth:
                    out.append(ctx.finding(
                        "snapshot-pairing", fn.qual, fn.mod, fn.node,
                        f"a path that ends with {end} does: "
                        + (", ".join(tr) or "nothing")))
    ctx.count("functions_with_snapshots", nf)
    ctx.count("snapshot_paths_decided", npaths)
    if nf < 30:
        raise AnalysisBroken("too few snapshot users found")
    return out


def aborts(s):
    a = s.aborts
    a = a.items() if hasattr(a, "items") else a
    return [(str(k).rpartition(".")[2], g) for k, g in a
            if g is not FALSE]
