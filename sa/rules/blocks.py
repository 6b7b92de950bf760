"""A rejected block or transaction leaves no trace; header coverage."""
from . import rule
from .. import evalr, terms as tm
from ..project import FORKS, AnalysisBroken
from ..terms import FALSE, band, mk


class _All:
    def __contains__(self, x):
        return True


class StopEv(evalr.Evaluator):
    """Records the heap at every point where an exception may leave."""
    WATCH = _All()

    def reset(self):
        super().reset()
        self.stops = []

    def abort(self, cls, g=None):
        if self.st.live is not FALSE:
            self.stops.append((self.st.live, self.observable(self.st.heap),
                               cls, list(self.log)))
        super().abort(cls, g)

    def boundary_call(self, fn, args, nodes, e, stmt):
        if self.st.live is not FALSE:
            self.stops.append((self.st.live, self.observable(self.st.heap),
                               fn, list(self.log)))
        return super().boundary_call(fn, args, nodes, e, stmt)


def stop_ev(ctx):
    if not hasattr(ctx, "_sev"):
        ctx._sev = StopEv(ctx.act, ctx.pair.common, ctx.infos)
    return ctx._sev


def changed(heap, obj, attr, live):
    for (o, a), gv in heap.items():
        if a == "*" and o.op == "attr":
            o, a = o.args
        if o is not obj or a != attr:
            continue
        init = mk("attr", o, a)
        if any(t is not init and t.op != "dead" and
               band(g, live) is not FALSE for g, t in gv):
            return True
    return False


def may_raise(ctx, x):
    if isinstance(x, str):
        return True
    i = ctx.act_infos.get(x.qual)
    return i is None or i.raises


def line_of(log):
    for x in reversed(log):
        if getattr(x[2], "lineno", 0):
            return x[2]
    return 0


@rule("C02")
def append_after_checks(ctx):
    """Nothing that can reject the block runs after the chain has grown."""
    out = []
    n = nf = 0
    for fk in FORKS:
        fn = ctx.act.get_func(f"ethereum.{fk}.fork.state_transition")
        if fn is None:
            raise AnalysisBroken(f"no state_transition in {fk}")
        ev = stop_ev(ctx)
        tm.new_budget(ctx.pair.BUDGET)
        try:
            s = ev.summarize(fn)
        except (tm.BddBudget, RecursionError):
            continue
        if s.unsup:
            continue
        nf += 1
        ch = mk("param", 0)
        for live, heap, x, log in ev.stops:
            if not may_raise(ctx, x):
                continue
            n += 1
            if changed(heap, ch, "blocks", live):
                out.append(ctx.finding(
                    "append-after-checks", fn.qual, fn.mod,
                    line_of(log) or fn.node,
                    "the block is already on the chain when "
                    + (f"{x.rpartition('.')[2]} is raised"
                       if isinstance(x, str) else f"{x.qual} may reject it")))
    ctx.count("rejection_points_checked", n)
    if nf and n < 5 * nf:
        raise AnalysisBroken("too few rejection points")
    return out


EXEC = ("process_message_call", "process_message", "process_create_message",
        "increment_nonce", "set_account_balance", "set_account", "move_ether",
        "create_ether", "set_storage", "set_code", "destroy_account")


@rule("C03")
def admission_first(ctx):
    """The state is untouched while a transaction can still be refused."""
    out = []
    n = nf = 0
    for fk in FORKS:
        for name in ("process_transaction", "check_transaction"):
            fn = ctx.act.get_func(f"ethereum.{fk}.fork.{name}")
            if fn is None:
                continue
            ev = stop_ev(ctx)
            tm.new_budget(ctx.pair.BUDGET)
            try:
                s = ev.summarize(fn)
            except (tm.BddBudget, RecursionError):
                continue
            if s.unsup:
                continue
            nf += 1
            for live, heap, x, log in ev.stops:
                if not isinstance(x, str) and x.qual.rpartition(".")[2] not \
                        in ("check_transaction", "validate_transaction",
                            "recover_sender"):
                    continue
                if isinstance(x, str) and not x.startswith("ethereum."):
                    continue
                n += 1
                for w, lv, nd, kw, where in log:
                    if w == "call" and kw["qual"].rpartition(".")[2] in \
                            EXEC and band(lv, live) is not FALSE:
                        out.append(ctx.finding(
                            "admission-first", fn.qual, fn.mod, nd,
                            f"{kw['qual']} has already run when the "
                            "transaction can still be refused"))
                        break
    ctx.count("refusal_points_checked", n)
    if nf and n < nf:
        raise AnalysisBroken("too few refusal points")
    return out


# header fields that no rule constrains (they are inputs of the block)
FREE = {"coinbase"}
FREE_POS = {"prev_randao", "parent_beacon_block_root"}


@rule("C01", "C02")
def header_coverage(ctx):
    """Every header field decides acceptance, unless it is a free input."""
    out = []
    n = 0
    for fk in FORKS:
        c = ctx.act.get_class(f"ethereum.{fk}.blocks.Header")
        if c is None:
            raise AnalysisBroken(f"no Header in {fk}")
        seen = set()
        ok = True
        for name in ("state_transition", "validate_header",
                     "validate_proof_of_work", "validate_ommers"):
            fn = ctx.act.get_func(f"ethereum.{fk}.fork.{name}")
            if fn is None:
                continue
            ev = ctx.pair.evs()[1]
            tm.new_budget(ctx.pair.BUDGET)
            try:
                s = ev.summarize(fn)
            except (tm.BddBudget, RecursionError):
                ok = False
                continue
            if s.unsup:
                ok = False
                continue
            for g in s.aborts.values():
                for v in tm.bdd_vars(g):
                    for x in tm.subterms(v):
                        if x.op == "attr":
                            seen.add(x.args[1])
        if not ok:
            ctx.notes.append(f"header checks of {fk} not summarised")
            continue
        free = FREE | (FREE_POS if FORKS.index(fk) >= FORKS.index("paris")
                       else set())
        for f in ctx.act.all_fields(c):
            nm = f if isinstance(f, str) else f[0]
            n += 1
            if nm not in seen and nm not in free:
                out.append(ctx.finding(
                    "header-coverage", f"{c.qual}.{nm}", c.mod, c.node,
                    "no acceptance condition depends on this field"))
    ctx.count("header_fields_decided", n)
    return out
