"""Gas is charged before the effects and the work it pays for (C09)."""
from . import rule
from . import evm as E
from .. import evalr, terms as tm
from ..project import FORKS, AnalysisBroken
from ..terms import TRUE, FALSE, band, mk

# what a frame may change before it pays: it is discarded when gas runs out
FREE = {"stack", "pc", "gas_left", "refund_counter", "accessed_addresses",
        "accessed_storage_keys", "accounts_to_delete"}
WORK = {"memory_read_bytes", "memory_write", "keccak256", "generic_call",
        "generic_create", "process_message", "process_create_message",
        "move_ether", "compress", "secp256k1_recover",
        "secp256r1_verify", "verify_kzg_proof", "kzg_commitment_to_"
        "versioned_hash", "map_to_curve", "G1_to_bytes", "g1_to_bytes",
        "g2_to_bytes"}
WORK_EXT = {"hashlib", "py_ecc", "coincurve", "cryptography"}


class WatchEv(evalr.Evaluator):
    WATCH = frozenset({"charge_gas"})


def watched(ctx):
    if not hasattr(ctx, "_wev"):
        ctx._wev = WatchEv(ctx.act, ctx.pair.common, ctx.infos)
    return ctx._wev


def entry_points(ctx, only=None):
    """{qual: (Func, label)} of all instruction and precompile handlers."""
    out = {}
    for fk, d in E.handlers(ctx).items():
        for b, (v, ln, m) in sorted(d.items()):
            q = v[1] if v[0] == "func" else (
                E.partial_of(v[1])[0] if v[0] == "term" and v[1] is not None
                else None)
            fn = ctx.act.get_func(q) if q else None
            if fn is not None:
                nm = E.OPS[b][1] if b in E.OPS else f"byte {b:#04x}"
                out.setdefault(fn.qual, (fn, f"{fk} {nm}"))
    n = len(out)
    for fk, d in precompiles(ctx).items():
        for a, (fn, ln, m) in d.items():
            if fn is not None:
                out.setdefault(fn.qual, (fn, f"{fk} precompile {a:#x}"))
    if n < 400:
        raise AnalysisBroken("instruction handlers not found")
    return out


def precompiles(ctx):
    """{fork: {address: (Func, line, module)}}"""
    if hasattr(ctx, "_pre"):
        return ctx._pre
    out = {}
    ev = ctx.plain_ev()
    from .. import structure
    for fk in FORKS:
        m = ctx.act.modules.get(
            f"ethereum.{fk}.vm.precompiled_contracts.mapping")
        if m is None:
            raise AnalysisBroken(f"no precompile table module in {fk}")
        s = ctx.act.resolve(m, "PRE_COMPILED_CONTRACTS")
        if s is None or s.kind != "const":
            continue
        ent = structure.table_entries(ctx.act, s.mod, s.node, ev)
        if ent is None:
            continue
        d = {}
        for k, v, ln in ent:
            a = address(ctx, k)
            fn = ctx.act.get_func(v[1]) if v[0] == "func" else None
            d[a if a is not None else ("?", tm.show(k, 4))] = (fn, ln, s.mod)
        out[fk] = d
    ctx._pre = out
    return out


def address(ctx, k):
    if k is None:
        return None
    for x in tm.subterms(k):
        if x.op == "bytes" and len(x.args[0]) == 20:
            return int.from_bytes(x.args[0], "big")
        if x.op == "str":
            try:
                return int(x.args[0], 16)
            except ValueError:
                pass
    return None


@rule("C09")
def charge_first(ctx):
    out = []
    ev = watched(ctx)
    npt = nfn = skipped = 0
    for q, (fn, label) in sorted(entry_points(ctx).items()):
        tm.new_budget(ctx.pair.BUDGET)
        try:
            s = ev.summarize(fn)
            pts = list(ev.points)
        except (tm.BddBudget, RecursionError):
            skipped += 1
            continue
        if s.unsup:
            skipped += 1
            continue
        nfn += 1
        for live, heap, log, node, args, depth in pts:
            npt += 1
            if depth:
                continue
            for (o, a), gv in heap.items():
                if a in FREE:
                    continue
                if o.op == "attr" and a == "*" and o.args[1] in FREE:
                    continue
                if not rooted(o):
                    continue
                init = o if a == "*" else mk("attr", o, a)
                for g, t in gv:
                    if t is init or t.op == "dead" or \
                            band(g, live) is FALSE:
                        continue
                    out.append(ctx.finding(
                        "charge-first", f"{label} -> {q}", fn.mod, node,
                        f"{tm.show(o, 3)}.{a} has already changed when the "
                        "gas is charged"))
                    break
            for what, lv, nd, kw, where in log:
                if band(lv, live) is FALSE:
                    continue
                w = None
                if what == "call" and kw["qual"].rpartition(".")[2] in WORK:
                    w = kw["qual"]
                elif what == "ext" and kw["qual"].split(".")[0] in WORK_EXT \
                        and expensive(kw["qual"]):
                    w = kw["qual"]
                if w:
                    out.append(ctx.finding(
                        "charge-first", f"{label} -> {q}", fn.mod, node,
                        f"{w} has already run when the gas is charged"))
    ctx.count("handlers_analysed", nfn)
    ctx.count("charge_points", npt)
    ctx.count("handlers_without_summary", skipped)
    if nfn < 300 or npt < 300:
        raise AnalysisBroken("too few charge points found")
    return out


def expensive(q):
    n = q.rpartition(".")[2]
    return n in ("sha256", "new", "pairing", "multiply", "add", "pow",
                 "ecdsa_raw_recover", "digest", "final_exponentiate",
                 "bls12_multiply", "recover") or "pairing" in n


def rooted(o):
    while o.op == "attr":
        o = o.args[0]
    return o.op == "param"
