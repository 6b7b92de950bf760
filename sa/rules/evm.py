"""Opcode table, stack arity, program counter, fixed gas, static context."""
import ast

from . import rule
from .. import terms as tm, structure
from ..project import FORKS, AnalysisBroken
from ..terms import TRUE, FALSE, band, bnot, mk


def since(f):
    return FORKS[FORKS.index(f):]


# byte -> (first fork, mnemonic, pops, pushes, {fork: fixed gas} or None)
OPS = {}


def op(b, name, pops, pushes, gas, fork="frontier"):
    if gas is not None and not isinstance(gas, dict):
        gas = {fork: gas}
    OPS[b] = (fork, name, pops, pushes, gas)


for _b, _n, _p, _g in [
        (0x01, "ADD", 2, 3), (0x02, "MUL", 2, 5), (0x03, "SUB", 2, 3),
        (0x04, "DIV", 2, 5), (0x05, "SDIV", 2, 5), (0x06, "MOD", 2, 5),
        (0x07, "SMOD", 2, 5), (0x08, "ADDMOD", 3, 8), (0x09, "MULMOD", 3, 8),
        (0x0a, "EXP", 2, None), (0x0b, "SIGNEXTEND", 2, 5),
        (0x10, "LT", 2, 3), (0x11, "GT", 2, 3), (0x12, "SLT", 2, 3),
        (0x13, "SGT", 2, 3), (0x14, "EQ", 2, 3), (0x15, "ISZERO", 1, 3),
        (0x16, "AND", 2, 3), (0x17, "OR", 2, 3), (0x18, "XOR", 2, 3),
        (0x19, "NOT", 1, 3), (0x1a, "BYTE", 2, 3), (0x20, "KECCAK", 2, None),
        (0x30, "ADDRESS", 0, 2),
        (0x31, "BALANCE", 1, {"frontier": 20, "tangerine_whistle": 400,
                              "istanbul": 700, "berlin": None}),
        (0x32, "ORIGIN", 0, 2), (0x33, "CALLER", 0, 2),
        (0x34, "CALLVALUE", 0, 2), (0x35, "CALLDATALOAD", 1, 3),
        (0x36, "CALLDATASIZE", 0, 2), (0x38, "CODESIZE", 0, 2),
        (0x3a, "GASPRICE", 0, 2),
        (0x3b, "EXTCODESIZE", 1, {"frontier": 20, "tangerine_whistle": 700,
                                  "berlin": None}),
        (0x40, "BLOCKHASH", 1, 20), (0x41, "COINBASE", 0, 2),
        (0x42, "TIMESTAMP", 0, 2), (0x43, "NUMBER", 0, 2),
        (0x44, "DIFFICULTY/PREVRANDAO", 0, 2), (0x45, "GASLIMIT", 0, 2),
        (0x51, "MLOAD", 1, None),
        (0x54, "SLOAD", 1, {"frontier": 50, "tangerine_whistle": 200,
                            "istanbul": 800, "berlin": None}),
        (0x58, "PC", 0, 2), (0x59, "MSIZE", 0, 2), (0x5a, "GAS", 0, 2)]:
    op(_b, _n, _p, 1, _g)
for _b, _n, _p, _g in [
        (0x37, "CALLDATACOPY", 3, None), (0x39, "CODECOPY", 3, None),
        (0x3c, "EXTCODECOPY", 4, None), (0x50, "POP", 1, 2),
        (0x52, "MSTORE", 2, None), (0x53, "MSTORE8", 2, None),
        (0x55, "SSTORE", 2, None), (0x56, "JUMP", 1, 8),
        (0x57, "JUMPI", 2, 10), (0x5b, "JUMPDEST", 0, 1),
        (0x00, "STOP", 0, None), (0xf3, "RETURN", 2, None),
        (0xff, "SELFDESTRUCT", 1, None)]:
    op(_b, _n, _p, 0, _g)
for _i in range(32):
    op(0x60 + _i, f"PUSH{_i + 1}", 0, 1, 3)
for _i in range(16):
    op(0x80 + _i, f"DUP{_i + 1}", None, None, 3)
    op(0x90 + _i, f"SWAP{_i + 1}", None, None, 3)
for _i in range(5):
    op(0xa0 + _i, f"LOG{_i}", 2 + _i, 0, None)
op(0xf0, "CREATE", None, None, None)
op(0xf1, "CALL", None, None, None)
op(0xf2, "CALLCODE", None, None, None)
op(0xf4, "DELEGATECALL", None, None, None, "homestead")
op(0x3d, "RETURNDATASIZE", 0, 1, 2, "byzantium")
op(0x3e, "RETURNDATACOPY", 3, 0, None, "byzantium")
op(0xfa, "STATICCALL", None, None, None, "byzantium")
op(0xfd, "REVERT", 2, 0, None, "byzantium")
op(0x1b, "SHL", 2, 1, 3, "constantinople")
op(0x1c, "SHR", 2, 1, 3, "constantinople")
op(0x1d, "SAR", 2, 1, 3, "constantinople")
op(0x3f, "EXTCODEHASH", 1, 1, {"constantinople": 400, "istanbul": 700,
                               "berlin": None}, "constantinople")
op(0xf5, "CREATE2", None, None, None, "constantinople")
op(0x46, "CHAINID", 0, 1, 2, "istanbul")
op(0x47, "SELFBALANCE", 0, 1, 5, "istanbul")
op(0x48, "BASEFEE", 0, 1, 2, "london")
op(0x5f, "PUSH0", 0, 1, 2, "shanghai")
op(0x49, "BLOBHASH", 1, 1, 3, "cancun")
op(0x4a, "BLOBBASEFEE", 0, 1, 2, "cancun")
op(0x5c, "TLOAD", 1, 1, 100, "cancun")
op(0x5d, "TSTORE", 2, 0, 100, "cancun")
op(0x5e, "MCOPY", 3, 0, None, "cancun")
op(0x1e, "CLZ", 1, 1, 5, "osaka")


def handlers(ctx):
    """{fork: {byte: (function or None, partial kwargs, line, module)}}."""
    if hasattr(ctx, "_handlers"):
        return ctx._handlers
    out = {}
    ev = ctx.pair.evs()[1]
    ev_plain = ctx.plain_ev()
    for fk in FORKS:
        m = ctx.act.modules.get(f"ethereum.{fk}.vm.instructions")
        if m is None:
            raise AnalysisBroken(f"no instruction table module in {fk}")
        s = ctx.act.resolve(m, "op_implementation")
        if s is None or s.kind != "const":
            continue
        ent = structure.table_entries(ctx.act, s.mod, s.node, ev_plain)
        if ent is None:
            continue
        d = {}
        for k, v, ln in ent:
            b = enum_value(ctx, ev_plain, k)
            if b is None:
                continue
            d[b] = (v, ln, s.mod)
        out[fk] = d
    ctx._handlers = out
    return out


def enum_value(ctx, ev, k):
    if k is None:
        return None
    if k.op == "int":
        return k.args[0]
    if k.op == "enum":
        c = ctx.act.get_class(k.args[0])
        if c is None:
            return None
        cc = ctx.act.find_class_const(c, k.args[1])
        if cc is None:
            return None
        t = structure.const_term(ev, cc[0].mod, cc[1])
        if t is not None and t.op == "int":
            return t.args[0]
    return None


def enum_bytes(ctx, fk):
    """Byte values that the fork's opcode enumeration accepts."""
    m = ctx.act.modules[f"ethereum.{fk}.vm.instructions"]
    s = ctx.act.resolve(m, "Ops")
    if s is None or s.kind != "class":
        return None
    ev = ctx.plain_ev()
    out = {}
    for k in reversed(ctx.act.mro(s.node)):
        for n, v in k.consts.items():
            if n.startswith("_"):
                continue
            t = structure.const_term(ev, k.mod, v)
            if t is None or t.op != "int":
                return None
            out[t.args[0]] = (n, v, k.mod)
    return out


@rule("C06")
def opcode_bytes(ctx):
    """Exactly the fork's byte values are instructions."""
    out = []
    hs = handlers(ctx)
    n = 0
    for fk in FORKS:
        want = {b for b, o in OPS.items() if fk in since(o[0])}
        en = enum_bytes(ctx, fk)
        m = ctx.act.modules[f"ethereum.{fk}.vm.instructions"]
        if en is not None:
            n += 256
            for b in sorted(set(en) - want):
                out.append(ctx.finding(
                    "opcode-bytes", f"{fk} Ops.{en[b][0]}", en[b][2],
                    en[b][1], f"byte {b:#04x} is an opcode of {fk} but not "
                    "of its specification"))
            for b in sorted(want - set(en)):
                out.append(ctx.finding(
                    "opcode-bytes", f"{fk} Ops", m, 0,
                    f"byte {b:#04x} ({OPS[b][1]}) is not an opcode of {fk}"))
        if fk in hs:
            for b in sorted(want - set(hs[fk])):
                out.append(ctx.finding(
                    "opcode-bytes", f"{fk} op_implementation", m, 0,
                    f"byte {b:#04x} ({OPS[b][1]}) has no implementation"))
    ctx.count("opcode_byte_decisions", n)
    if not out and n < 18 * 256:
        ctx.notes.append("opcode enumeration not literal in some fork")
    return out


def summary(ctx, v):
    """Summary of a handler (function or partial of one)."""
    cache = ctx.__dict__.setdefault("_hsum", {})
    if v in cache:
        return cache[v]
    r = None
    q, binds = None, {}
    if v[0] == "func":
        q = v[1]
    elif v[0] == "term" and v[1] is not None:
        q, binds = partial_of(v[1])
    fn = ctx.act.get_func(q) if q else None
    if fn is not None:
        ev = ctx.pair.evs()[1]
        tm.new_budget(ctx.pair.BUDGET)
        try:
            s = ev.summarize(fn)
            r = (fn, binds, s) if not s.unsup else None
        except (tm.BddBudget, RecursionError):
            r = None
    cache[v] = r
    return r


def partial_of(t):
    if t.op != "partial" or t.args[0].op != "fn":
        return None, {}
    binds = {}
    if t.args[1].op == "tuple":
        for i, a in enumerate(t.args[1].args):
            binds[i] = a
    for i in range(2, len(t.args) - 1, 2):
        binds[t.args[i]] = t.args[i + 1]
    return t.args[0].args[0], binds


def bound(fn, binds):
    """Substitution of the parameters that a partial binds."""
    names = [a.arg for a in fn.node.args.args]
    m = {}
    for k, v in binds.items():
        if not isinstance(k, int):
            k = str(k)
            if k not in names:
                continue
            k = names.index(k)
        m[mk("param", k)] = v
    return m


def specialise(fn, binds, s):
    """(heap, events, na) of the summary for the bound parameters."""
    m = bound(fn, binds)
    if not m:
        return s.heap, s.events, s.na
    memo = {}
    sub = lambda t: tm.subst(t, m, memo)
    heap = {(sub(k[0]), k[1]): tuple((sub(g), sub(t)) for g, t in v)
            for k, v in s.heap.items()}
    events = {}
    for e, g in s.events.items():
        e = sub(e)
        events[e] = tm.bor(events.get(e, FALSE), sub(g))
    return heap, events, sub(s.na)


@rule("C07", "C06")
def pc_advance(ctx):
    """Every completing path moves pc just past the instruction."""
    out = []
    n = 0
    for fk, d in handlers(ctx).items():
        for b, (v, ln, m) in sorted(d.items()):
            if b in (0x56, 0x57, 0x00, 0xf3, 0xfd, 0xff) or b not in OPS:
                continue
            r = summary(ctx, v)
            if r is None:
                continue
            fn, binds, s = r
            heap, _, na = specialise(fn, binds, s)
            pc = mk("attr", mk("param", 0), "pc")
            want = tm.add(pc, tm.Int(b - 0x5e if 0x60 <= b <= 0x7f else 1))
            got = heap.get((mk("param", 0), "pc"))
            n += 1
            bad = None
            if got is None:
                bad = "pc is not advanced"
            else:
                for g, t in got:
                    if band(g, na) is FALSE:
                        continue
                    if t is not want:
                        bad = f"pc becomes {tm.show(t, 4)}"
            if bad and na is not FALSE:
                out.append(ctx.finding(
                    "pc-advance", f"{fk} {OPS[b][1]} -> {fn.qual}", fn.mod,
                    fn.node, bad + " on a completing path"))
    ctx.count("pc_paths_decided", n)
    return out


def stack_ops(t, stack0):
    """(pops, pushes) sequence that leads to stack term t, or None."""
    seq = []
    seen = 0
    while t is not stack0:
        seen += 1
        if seen > 40:
            return None
        if t.op == "post" and t.args and t.args[0].op == "call":
            c = t.args[0]
            q = c.args[0]
            q = q if isinstance(q, str) else (
                q.args[0] if q.op == "fn" else None)
            if q is None:
                return None
            nm = q.rpartition(".")[2]
            if nm not in ("pop", "push"):
                return None
            seq.append(nm)
            t = c.args[1]
            continue
        return None
    return seq[::-1]


@rule("C07")
def stack_arity(ctx):
    """Every completing path pops and pushes what the opcode prescribes."""
    out = []
    n = 0
    st = mk("attr", mk("param", 0), "stack")
    for fk, d in handlers(ctx).items():
        for b, (v, ln, m) in sorted(d.items()):
            if b not in OPS or OPS[b][2] is None or 0xa0 <= b <= 0xa4:
                continue
            r = summary(ctx, v)
            if r is None:
                continue
            fn, binds, s = r
            heap, _, na = specialise(fn, binds, s)
            got = heap.get((mk("param", 0), "stack")) or (
                heap.get((st, "*")))
            if got is None:
                got = ((TRUE, st),)
            for g, t in got:
                if band(g, na) is FALSE or t.op == "dead":
                    continue
                seq = stack_ops(t, st)
                if seq is None:
                    continue
                n += 1
                pops, pushes = seq.count("pop"), seq.count("push")
                if (pops, pushes) != (OPS[b][2], OPS[b][3]):
                    out.append(ctx.finding(
                        "stack-arity", f"{fk} {OPS[b][1]} -> {fn.qual}",
                        fn.mod, fn.node,
                        f"pops {pops} and pushes {pushes} items instead of "
                        f"{OPS[b][2]} and {OPS[b][3]}"))
    ctx.count("stack_paths_decided", n)
    return out


def charge_args(events):
    """[(guard, gas term)] of charge_gas effects."""
    out = []
    for e, g in events.items():
        if e.op == "call" and str(callee(e)).endswith(".charge_gas"):
            out.append((g, e.args[2] if len(e.args) > 2 else None))
    return out


def callee(e):
    q = e.args[0]
    if isinstance(q, str):
        return q
    return q.args[0] if q.op in ("fn",) else ""


@rule("C08")
def fixed_gas(ctx):
    """Opcodes of constant cost charge exactly the fork's constant."""
    out = []
    n = 0
    for fk, d in handlers(ctx).items():
        for b, (v, ln, m) in sorted(d.items()):
            o = OPS.get(b)
            if o is None or o[4] is None:
                continue
            want = None
            for k in FORKS[:FORKS.index(fk) + 1]:
                if k in o[4]:
                    want = o[4][k]
            if want is None:
                continue
            r = summary(ctx, v)
            if r is None:
                continue
            fn, binds, s = r
            heap, events, na = specialise(fn, binds, s)
            ch = charge_args(events)
            if not ch and s.forced:
                continue
            n += 1
            # several alternatives are fine as long as each path pays `want`
            tot = FALSE
            ok = True
            for g, t in ch:
                if t is not tm.Int(want):
                    if t is not None and t.op == "gv":
                        continue
                    if band(g, na) is not FALSE:
                        ok = False
                        bad = tm.show(t, 4) if t is not None else "?"
                tot = tm.bor(tot, g)
            if not ch:
                ok, bad = False, "nothing"
            elif ok and band(na, bnot(tot)) is not FALSE:
                ok, bad = False, "nothing on some path"
            if not ok:
                out.append(ctx.finding(
                    "fixed-gas", f"{fk} {o[1]} -> {fn.qual}", fn.mod,
                    fn.node, f"charges {bad} instead of {want}"))
    ctx.count("fixed_gas_decisions", n)
    return out
