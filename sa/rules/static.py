"""No state is written while the frame is static (C10)."""
from . import rule
from . import evm as E
from .. import terms as tm
from ..project import FORKS, AnalysisBroken
from ..terms import FALSE, band, bnot, mk

OWN = {"logs", "accounts_to_delete"}
STATE = {"state", "transient_storage"}


def static_flag():
    return tm.truth(mk("attr", mk("attr", mk("param", 0), "message"),
                       "is_static"))


def params_of(fn):
    a = fn.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def writes_state(ctx, q):
    """The callee may change the world state, logs or deletions."""
    i = ctx.act_infos.get(q)
    if i is None:
        return False
    if any(set(map(str, p[1:])) & (OWN | STATE) for p in i.mods):
        return True
    return q.split(".")[-2:-1] == ["state"] and bool(i.mods)


def kw(t, name):
    for i in range(1, len(t.args) - 1, 2):
        k = t.args[i]
        if k == name or getattr(k, "args", (None,))[0] == name:
            return t.args[i + 1]
    return None


def boundary_args(fn, e):
    """{parameter: term} of a call event."""
    d = {}
    for nm, t in zip(params_of(fn), e.args[1:]):
        if getattr(t, "op", None) == "ctx":
            break
        d[nm] = t
    return d


def from_static_child(t, g):
    """The value comes from a child frame, and each such child is static."""
    seen = False
    for x in tm.subterms(t):
        if x.op == "new" and str(x.args[0]).endswith(".Message"):
            v = kw(x, "is_static")
            if v is None or band(g, bnot(tm.truth(v))) is not FALSE:
                return False
            seen = True
    return seen


def check(ctx, label, fn, heap, events, na, depth, out):
    """Findings of one frame function, assuming its frame is static."""
    st = static_flag()
    live = band(na, st)
    if live is FALSE:
        return
    for (o, a), gv in heap.items():
        if a == "*" and o.op == "attr":
            o, a = o.args
        if a not in OWN | STATE:
            continue
        init = mk("attr", o, a)
        for g, t in gv:
            if t is init or t.op in ("post", "W", "dead") or \
                    band(g, live) is FALSE or \
                    from_static_child(t, band(g, live)):
                continue
            out.append(ctx.finding(
                "static-write", label, fn.mod, fn.node,
                f"{tm.show(o, 3)}.{a} changes although the frame is static"))
            break
    for e, g in events.items():
        g = band(g, live)
        if g is FALSE or e.op != "call":
            continue
        q = E.callee(e)
        cf = ctx.act.get_func(q) if q else None
        if cf is None or not writes_state(ctx, cf.qual):
            continue
        ctx.count("static_call_obligations")
        args = boundary_args(cf, e)
        msg = None
        for nm, t in args.items():
            if t.op == "new" and str(t.args[0]).endswith(".Message"):
                msg = t
        if msg is not None:
            v = kw(msg, "is_static")
            if v is not None and band(g, bnot(tm.truth(v))) is not FALSE:
                out.append(ctx.finding(
                    "static-child", label, fn.mod, fn.node,
                    f"{q} runs a child frame that is not static although "
                    "its parent is"))
            continue
        if any(t.op in ("call", "attr", "index") and from_static_child(t, g)
               for t in args.values()):
            # takes over what a static child left, which is nothing
            continue
        if args and next(iter(args.values())) is mk("param", 0):
            if "should_transfer_value" in args and "value" in args:
                g2 = band(band(g, tm.truth(args["should_transfer_value"])),
                          tm.truth(args["value"]))
                if args.get("caller") is not args.get("to") and \
                        g2 is not FALSE:
                    out.append(ctx.finding(
                        "static-value", label, fn.mod, fn.node,
                        f"{q} moves a non-zero value although the frame is "
                        "static"))
            if depth:
                r = E.summary(ctx, ("func", cf.qual))
                if r is None:
                    ctx.count("callees_without_summary")
                    continue
                f2, _, s = r
                check(ctx, f"{label} -> {f2.qual}", f2, s.heap, s.events,
                      s.na, depth - 1, out)
            continue
        out.append(ctx.finding(
            "static-write", label, fn.mod, fn.node,
            f"{q} is called although the frame is static"))


@rule("C10")
def static_writes(ctx):
    out = []
    n = 0
    seen = set()
    for fk, d in E.handlers(ctx).items():
        if fk not in E.since("byzantium"):
            continue
        for b, (v, ln, m) in sorted(d.items()):
            r = E.summary(ctx, v)
            if r is None:
                ctx.count("handlers_without_summary")
                continue
            fn, binds, s = r
            n += 1
            heap, events, na = E.specialise(fn, binds, s)
            nm = E.OPS[b][1] if b in E.OPS else f"byte {b:#04x}"
            key = (fn.qual, repr(sorted(map(str, binds.items()))))
            if key in seen:
                continue
            seen.add(key)
            check(ctx, f"{fk} {nm} -> {fn.qual}", fn, heap, events, na, 2,
                  out)
    ctx.count("handlers_decided_under_static", n)
    if n < 14 * 60:
        raise AnalysisBroken("too few instruction handlers found")
    return out
