"""Encodings, type bytes and signing domains against their EIPs (C17)."""
from . import rule
from .tools import summarize
from .. import evalr, terms as tm
from ..project import FORKS, AnalysisBroken
from ..terms import FALSE, TRUE, mk

LEGACY = ["nonce", "gas_price", "gas", "to", "value", "data"]
SIG = ["v", "r", "s"]
ACC = ["chain_id", "nonce", "gas_price", "gas", "to", "value", "data",
       "access_list"]
FEE = ["chain_id", "nonce", "max_priority_fee_per_gas", "max_fee_per_gas",
       "gas", "to", "value", "data", "access_list"]
BLOB = FEE + ["max_fee_per_blob_gas", "blob_versioned_hashes"]
CODE = FEE + ["authorizations"]
YSIG = ["y_parity", "r", "s"]
# class, type byte, signed fields, first fork
TYPED = [("AccessListTransaction", 1, ACC, "berlin"),
         ("FeeMarketTransaction", 2, FEE, "london"),
         ("BlobTransaction", 3, BLOB, "cancun"),
         ("SetCodeTransaction", 4, CODE, "prague")]
HEADER = ["parent_hash", "ommers_hash", "coinbase", "state_root",
          "transactions_root", "receipt_root", "bloom", "difficulty",
          "number", "gas_limit", "gas_used", "timestamp", "extra_data",
          ("mix_digest", "prev_randao"), "nonce"]
HEADER_MORE = [("london", ["base_fee_per_gas"]),
               ("shanghai", ["withdrawals_root"]),
               ("cancun", ["blob_gas_used", "excess_blob_gas",
                           "parent_beacon_block_root"]),
               ("prague", ["requests_hash"])]


def at(fk, first):
    return FORKS.index(fk) >= FORKS.index(first)


def records(fk):
    """(module, class, fields in encoding order)."""
    h = list(HEADER)
    for f, more in HEADER_MORE:
        if at(fk, f):
            h += more
    yield "blocks", "Header", h
    b = ["header", "transactions", "ommers"]
    if at(fk, "shanghai"):
        b.append("withdrawals")
        yield "blocks", "Withdrawal", ["index", "validator_index",
                                       "address", "amount"]
    yield "blocks", "Block", b
    yield "blocks", "Log", ["address", "topics", "data"]
    yield "blocks", "Receipt", [
        "succeeded" if at(fk, "byzantium") else "post_state",
        "cumulative_gas_used", "bloom", "logs"]
    if at(fk, "berlin"):
        yield "transactions", "LegacyTransaction", LEGACY + SIG
        yield "transactions", "Access", ["account", "slots"]
    else:
        yield "transactions", "Transaction", LEGACY + SIG
    for c, _, fs, first in TYPED:
        if at(fk, first):
            yield "transactions", c, fs + YSIG
    if at(fk, "prague"):
        yield "fork_types", "Authorization", ["chain_id", "address",
                                              "nonce"] + YSIG


def cls_of(ctx, fk, md, name):
    s = ctx.act.resolve(ctx.act.modules[f"ethereum.{fk}.{md}"], name)
    return s.node if s.kind == "class" else None


@rule("C17")
def record_order(ctx):
    """RLP writes a record's fields in declaration order."""
    out = []
    n = 0
    for fk in FORKS:
        for md, name, want in records(fk):
            c = cls_of(ctx, fk, md, name)
            if c is None:
                raise AnalysisBroken(f"no {name} in {fk}")
            got = list(ctx.act.all_fields(c))
            n += len(want)
            bad = None
            alt = [w if isinstance(w, tuple) else (w,) for w in want]
            if len(got) != len(want):
                bad = f"has {len(got)} fields instead of {len(want)}"
            else:
                for i, (g, w) in enumerate(zip(got, alt)):
                    if g in w:
                        continue
                    if any(g in x for x in alt):
                        bad = f"encodes {g} in the place of {w[0]}"
                        break
                    ctx.notes.append(f"{c.qual}.{g} is a new name")
            if bad:
                out.append(ctx.finding("record-order", c.qual, c.mod, c.node,
                                       bad))
    ctx.count("record_fields_checked", n)
    return out


def scenario(ctx, fk, term, param, cls, first=None):
    """The value when the parameter is an instance of exactly `cls`
    (a qualified name, or None for raw bytes starting with `first`)."""
    if first is not None:
        z = mk("index", mk("param", param), tm.Int(0))
        term = [(tm.subst(g, {z: tm.Int(first)}), t) for g, t in term]
    out = []
    for g, t in term:
        for a in tm.bdd_vars(g):
            v = None
            if a.op == "isinst" and a.args[0].op == "param" and \
                    a.args[0].args[0] == param:
                q = a.args[1]
                if cls is None:
                    v = q.rpartition(".")[2] in ("Bytes", "bytes")
                else:
                    v = q == cls
            if v is not None:
                g = tm.restrict(g, a, v)
        if g is not FALSE:
            out.append((g, t))
    return out


def live(s):
    """Results on the paths that return."""
    return [(tm.band(g, s.na), t) for g, t in s.ret]


def the(alts):
    return alts[0][1] if len(alts) == 1 else None


def type_prefix(t):
    """(byte, payload) of concat(b"\\x01", payload)."""
    if t is None or t.op != "concat" or t.args[0].op != "bytes":
        return None
    b = t.args[0].args[0]
    return (b[0], t.args[1:]) if len(b) == 1 else None


def call_of(t, suffix):
    return t.op in ("call", "ext") and isinstance(t.args[0], str) and \
        t.args[0].endswith(suffix)


def preimage(ctx, fk, ev, h, owner):
    """(type byte or None, [field, ...]) of a message hash term."""
    for _ in range(3):
        if call_of(h, "keccak256"):
            break
        if h.op == "call":
            f = ctx.act.get_func(h.args[0])
            s = summarize(ctx, ev, f) if f is not None else None
            r = the(s.ret) if s is not None else None
            if r is None:
                return None
            m = {mk("param", i): a for i, a in enumerate(h.args[1:])
                 if isinstance(a, tm.T)}
            h = tm.subst(r, m)
    if not call_of(h, "keccak256"):
        return None
    x = h.args[1]
    k = None
    p = type_prefix(x)
    if p is not None:
        k = p[0]
        if len(p[1]) != 1:
            return None
        x = p[1][0]
    if not call_of(x, "rlp.encode") or x.args[1].op != "tuple":
        return None
    fs = []
    for a in x.args[1].args:
        if a.op == "attr" and a.args[0] is owner:
            fs.append(a.args[1])
        elif a.op == "int":
            fs.append(a.args[0])
        elif a.op == "param":
            fs.append("chain_id")
        else:
            return None
    return k, fs


def recovered(t):
    """Arguments of secp256k1_recover inside a sender term."""
    for x in tm.subterms(t):
        if x.op == "call" and str(x.args[0]).endswith(".secp256k1_recover"):
            return x.args[1:]
    return None


@rule("C17")
def type_bytes(ctx):
    """Writers, readers and signing hashes agree on each type byte."""
    out = []
    n = und = 0
    ev = evalr.Evaluator(ctx.act, ctx.pair.common, ctx.infos)

    def summ(q):
        f = ctx.act.get_func(q)
        if f is None:
            raise AnalysisBroken(f"no {q}")
        return f, summarize(ctx, ev, f)

    def bad(f, text):
        out.append(ctx.finding("type-bytes", f.qual, f.mod, f.node, text))

    for fk in FORKS:
        base = f"ethereum.{fk}"
        typed = [t for t in TYPED if at(fk, t[3])]
        if typed:
            enc, es = summ(f"{base}.transactions.encode_transaction")
            dec, ds = summ(f"{base}.transactions.decode_transaction")
            rec, rs = summ(f"{base}.blocks.encode_receipt")
            leg = cls_of(ctx, fk, "transactions", "LegacyTransaction").qual
            for f, s in ((enc, es), (rec, rs)):
                if s is None:
                    und += 1
                    continue
                for name, k, fs, _ in typed:
                    q = cls_of(ctx, fk, "transactions", name).qual
                    t = the(scenario(ctx, fk, live(s), 0, q))
                    p = type_prefix(t)
                    if p is None:
                        und += 1
                    elif p[0] != k:
                        bad(f, f"writes {name} under type {p[0]}, not {k}")
                    else:
                        n += 1
                t = the(scenario(ctx, fk, live(s), 0, leg))
                if t is not None and type_prefix(t) is not None:
                    bad(f, "writes a type byte for legacy transactions")
            if ds is not None:
                known = {k: cls_of(ctx, fk, "transactions", nm).qual
                         for nm, k, _, _ in typed}
                for k in (0, 1, 2, 3, 4, 5, 0x7f, 0xc0, 0xff):
                    alts = scenario(ctx, fk, live(ds), 0, None, k)
                    cl = {x.args[0] for g, t in alts for x in
                          tm.subterms(t) if x.op == "class" and
                          x.args[0] in known.values()}
                    n += 1
                    if any(g is not TRUE for g, _ in alts):
                        und += 1
                        continue
                    if k in known and cl and cl != {known[k]}:
                        bad(dec, f"reads type {k} as "
                            + ", ".join(sorted(cl)))
                    elif k not in known and cl:
                        bad(dec, f"accepts type {k} as "
                            + ", ".join(sorted(cl)))
                    elif k in known and not alts:
                        bad(dec, f"refuses type {k}")
            else:
                und += 1
        # senders
        snd, ss = summ(f"{base}.transactions.recover_sender")
        if ss is None:
            und += 1
            continue
        pi = next((i for i, p in enumerate(snd.params) if p == "tx"),
                  len(snd.params) - 1)
        own = mk("param", pi)
        cases = [(nm, k, fs) for nm, k, fs, _ in typed]
        cases.append(("LegacyTransaction" if typed else "Transaction", None,
                      LEGACY))
        for name, k, fs in cases:
            q = cls_of(ctx, fk, "transactions", name).qual
            alts = scenario(ctx, fk, live(ss), pi, q)
            for g, t in alts:
                r = recovered(t)
                if r is None or len(r) != 4:
                    und += 1
                    continue
                pre = preimage(ctx, fk, ev, r[3], own)
                if pre is None:
                    und += 1
                    continue
                n += 1
                want = [list(fs)]
                if k is None and at(fk, "spurious_dragon"):
                    want.append(list(fs) + ["chain_id", 0, 0])
                if pre[0] != k or pre[1] not in want:
                    bad(snd, f"{name} is signed over type {pre[0]} and "
                        f"({', '.join(map(str, pre[1]))}) instead of type "
                        f"{k} and ({', '.join(map(str, want[0]))})")
                if r[0] is not mk("attr", own, "r") or \
                        r[1] is not mk("attr", own, "s"):
                    bad(snd, f"{name} is recovered from "
                        f"{tm.show(r[0], 4)}, {tm.show(r[1], 4)}")
        if at(fk, "prague"):
            f, s = summ(f"{base}.vm.eoa_delegation.recover_authority")
            r = recovered(the(s.ret)) if s is not None and the(
                s.ret) is not None else None
            pre = preimage(ctx, fk, ev, r[3], mk("param", 0)) if r else None
            if pre is None:
                und += 1
            else:
                n += 1
                if pre != (5, ["chain_id", "address", "nonce"]):
                    bad(f, f"an authorization is signed over type {pre[0]} "
                        f"and ({', '.join(map(str, pre[1]))})")
    ctx.count("codec_agreements_checked", n)
    ctx.count("codec_undecided", und)
    if n < 100:
        raise AnalysisBroken("too few codecs decided")
    return out
