"""Tools around the specification: t8n, dynamic names, patches, tracers."""
import ast

from . import rule
from .. import evalr, terms as tm
from ..modref import MUTATORS
from ..project import FORKS, AnalysisBroken, Class, Func
from ..terms import FALSE, TRUE, mk

T8N = "ethereum_spec_tools.evm_tools.t8n.T8N"
BLOCK_OPS = ("process_unchecked_system_transaction",
             "process_checked_system_transaction",
             "process_system_transaction", "process_transaction",
             "process_withdrawals", "process_general_purpose_requests",
             "pay_rewards")


class ToolEv(evalr.Evaluator):
    """Evaluates the transition tool for one given fork."""
    fork = None

    def call_method(self, f, e, stmt):
        v = self.expr(f.value)
        if len(v) == 1 and v[0][1].op == "attr" and \
                v[0][1].args[1] == "fork":
            args = self.args_of(e)
            if f.attr == "is_after_fork" and len(args) == 1 and \
                    len(args[0]) == 1 and args[0][0][1].op == "str":
                q = args[0][0][1].args[0].rpartition(".")[2]
                if q in FORKS:
                    return evalr.one(tm.Bool(FORKS.index(self.fork)
                                             >= FORKS.index(q)))
            self.note("forkop", e, name=f.attr, args=args)
            r = mk("m", f.attr, v[0][1], *[self.term(a) for a in args])
            self.event(r, TRUE)
            return evalr.one(r)
        return super().call_method(f, e, stmt)


def subst_root(text, i):
    return text.replace(f"${i}.", "env.")


def bind(fn, args):
    """Arguments of a logged call by parameter name."""
    out, pos = {}, 0
    for a in args:
        if len(a) == 1 and a[0][1].op == "kw":
            out[a[0][1].args[0]] = a[0][1].args[1]
        else:
            if fn is None or pos >= len(fn.params):
                return None
            out[fn.params[pos]] = a[0][1] if len(a) == 1 else None
            pos += 1
    return out


def summarize(ctx, ev, fn):
    tm.new_budget(ctx.pair.BUDGET)
    try:
        s = ev.summarize(fn)
    except (tm.BddBudget, RecursionError):
        return None
    return None if s.unsup else s


def fork_const(ctx, fk, name):
    """Value of a constant of the fork module, as the evaluator prints it."""
    m = ctx.act.modules.get(f"ethereum.{fk}.fork")
    s = ctx.act.resolve(m, name)
    if s.kind != "const" or s.node is None:
        return None
    return address(ctx, s.mod, s.node)


def address(ctx, mod, e):
    """A literal address, however it is spelled."""
    for x in ast.walk(e):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            return x.value.lower()
    return None


def addr_of(t):
    """The literal inside an evaluated address term."""
    if t is None:
        return None
    if t.op == "str":
        return t.args[0].lower()
    if t.op in ("bytes",):
        return "0x" + t.args[0].hex()
    for x in t.args:
        if hasattr(x, "op"):
            r = addr_of(x)
            if r:
                return r
    return None


def block_ops(ctx, fk):
    """(op, target, data, line) of the fork's own block execution."""
    base = f"ethereum.{fk}.fork"
    fn = ctx.act.get_func(f"{base}.apply_body")
    if fn is None:
        raise AnalysisBroken(f"no apply_body in {fk}")
    ev = evalr.Evaluator(ctx.act, ctx.pair.common, ctx.infos)
    s = summarize(ctx, ev, fn)
    if s is None:
        return None
    out = []
    for what, live, node, kw, where in s.log:
        if what != "call" or not kw["qual"].startswith(base + "."):
            continue
        name = kw["qual"].rpartition(".")[2]
        if name not in BLOCK_OPS or live is FALSE:
            continue
        f = ctx.act.get_func(kw["qual"])
        b = bind(f, kw["args"]) or {}
        out.append((name, addr_of(b.get("target_address")),
                    str(b["data"]) if b.get("data") is not None else None,
                    node))
    return out


@rule("C24")
def same_block_order(ctx):
    """The transition tool runs the fork's block operations in its order."""
    c = ctx.act.get_class(T8N)
    fn = ctx.act.find_method(c, "_run_blockchain_test") if c else None
    if fn is None:
        raise AnalysisBroken("no _run_blockchain_test")
    out = []
    n = 0
    for fk in FORKS:
        want = block_ops(ctx, fk)
        ev = ToolEv(ctx.act, ctx.pair.common, ctx.infos)
        ev.fork = fk
        s = summarize(ctx, ev, fn)
        if want is None or s is None:
            ctx.notes.append(f"block order of {fk} undecided")
            continue
        got = []
        for what, live, node, kw, where in s.log:
            if live is FALSE:
                continue
            name = kw.get("name") if what == "forkop" else (
                kw["qual"].rpartition(".")[2] if what == "call" else None)
            if name == "pay_block_rewards":
                if got and got[-1][0] == "pay_rewards":
                    continue
                got.append(("pay_rewards", None, None, node))
                continue
            if what != "forkop" or name not in BLOCK_OPS:
                continue
            f = ctx.act.get_func(f"ethereum.{fk}.fork.{name}")
            if f is None:
                out.append(ctx.finding(
                    "same-block-order", fn.qual, fn.mod, node,
                    f"runs {name}, which {fk} does not have"))
                continue
            b = bind(f, kw["args"]) or {}
            t = b.get("target_address")
            adr = None
            if t is not None and t.op == "attr":
                adr = fork_const(ctx, fk, t.args[1])
            elif t is not None:
                adr = addr_of(t)
            got.append((name, adr, str(b["data"]) if b.get("data")
                        is not None else None, node))
        n += len(want)
        a = [(x, y, subst_root(z, 0) if z else z) for x, y, z, _ in want]
        g = [(x, y, subst_root(z, 1) if z else z) for x, y, z, _ in got]
        if a != g:
            k = next((i for i in range(min(len(a), len(g)))
                      if a[i] != g[i]), min(len(a), len(g)))
            node = got[k][3] if k < len(got) else fn.node
            show = [x[0] + (f"({y})" if y else "") for x, y in
                    zip(a, [q[1] for q in a])]
            exp = a[k] if k < len(a) else ("nothing more",)
            was = g[k] if k < len(g) else ("nothing more",)
            out.append(ctx.finding(
                "same-block-order", fn.qual, fn.mod, node,
                f"for {fk}, block execution runs "
                f"{' '.join(str(q) for q in exp if q)} as operation {k + 1} "
                f"and the tool runs {' '.join(str(q) for q in was if q)}"))
    ctx.count("block_operations_matched", n)
    if n < 2 * len(FORKS):
        raise AnalysisBroken("too few block operations")
    return out


# -- C26: names looked up dynamically

LOADER = "ethereum_spec_tools.evm_tools.loaders.fork_loader.ForkLoad"


def module_lookups(fn):
    """(submodule, attribute, node) for `self._module("x").Y` in a method."""
    me = fn.params[0] if fn.params else None
    held = {}
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                isinstance(x.targets[0], ast.Name):
            k = lookup_of(x.value, me)
            if k:
                held[x.targets[0].id] = k
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            k = lookup_of(x.value, me)
            if k is None and isinstance(x.value, ast.Name):
                k = held.get(x.value.id)
            if k:
                yield k, x.attr, x
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == "getattr" and len(x.args) == 2 and \
                isinstance(x.args[1], ast.Constant):
            k = lookup_of(x.args[0], me)
            if k:
                yield k, x.args[1].value, x


def lookup_of(e, me):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
            e.func.attr == "_module" and isinstance(e.func.value, ast.Name) \
            and e.func.value.id == me and len(e.args) == 1 and \
            isinstance(e.args[0], ast.Constant):
        return e.args[0].value
    return None


def self_attrs(tree, cls):
    out = set()
    for c in tree.mro(cls):
        out |= set(c.methods) | set(c.consts) | {f[0] for f in c.fields}
        for m in c.methods.values():
            me = m.params[0] if m.params else None
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, ast.Store) and isinstance(
                        x.value, ast.Name) and x.value.id == me:
                    out.add(x.attr)
    return out


@rule("C26", "C24")
def dynamic_names(ctx):
    """Every name the tools look up by fork exists."""
    cls = ctx.act.get_class(LOADER)
    if cls is None:
        raise AnalysisBroken("no ForkLoad")
    out = []
    n = u = 0
    for m in cls.methods.values():
        for sub, name, node in module_lookups(m):
            n += 1
            have = []
            for fk in FORKS:
                md = ctx.act.modules.get(f"ethereum.{fk}.{sub}")
                if md is not None and ctx.act.resolve(
                        md, name).kind not in ("unknown", "builtin"):
                    have.append(FORKS.index(fk))
            if not have:
                out.append(ctx.finding(
                    "dynamic-name", m.qual, m.mod, node,
                    f"no fork defines {sub}.{name}"))
            elif have != list(range(have[0], have[-1] + 1)):
                ctx.notes.append(f"{sub}.{name}: not a range of forks")
    names = self_attrs(ctx.act, cls) | set(dir(object))
    for fn in ctx.act.functions("ethereum_spec_tools.evm_tools"):
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.value, ast.Attribute) and x.value.attr == "fork" and \
                    isinstance(x.ctx, ast.Load):
                u += 1
                if x.attr not in names:
                    out.append(ctx.finding(
                        "dynamic-name", fn.qual, fn.mod, x,
                        f"the fork loader has no {x.attr}"))
    ctx.count("dynamic_names_resolved", n)
    ctx.count("uses_of_the_fork_loader", u)
    if u < 20:
        raise AnalysisBroken("too few uses of the fork loader")
    return out


# -- C27: patches

def patches_of(ctx, qual):
    """(function or class node, guard) of every patch, with the fork test."""
    fn = ctx.act.get_func(qual)
    if fn is None:
        raise AnalysisBroken(f"no {qual}")
    out = []
    named = {}
    for x in ast.walk(fn.mod.tree):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            named.setdefault(x.name, x)

    def walk(body, guard):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                if any(isinstance(d, ast.Call) and isinstance(
                        d.func, ast.Name) and d.func.id == "add_item"
                        for d in st.decorator_list):
                    out.append((st, tuple(guard)))
                elif isinstance(st, ast.FunctionDef):
                    walk(st.body, guard)
            elif isinstance(st, ast.If):
                walk(st.body, guard + [(st.test, True)])
                walk(st.orelse, guard + [(st.test, False)])
            elif isinstance(st, (ast.For, ast.While, ast.With, ast.Try)):
                walk(st.body, guard)
            elif isinstance(st, ast.Assign) and isinstance(
                    st.value, ast.Name) and st.value.id in named:
                for t in st.targets:
                    if isinstance(t, ast.Subscript) and isinstance(
                            t.slice, ast.Constant) and \
                            t.slice.value == st.value.id:
                        out.append((named[st.value.id], tuple(guard)))
    walk(fn.mod.tree.body, [])
    return fn, out


def transient_test(fn, e):
    """The test means "the fork has transient storage"."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        r = transient_test(fn, e.operand)
        return None if r is None else not r
    if isinstance(e, ast.Name):
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == e.id
                    for t in x.targets):
                return transient_test(fn, x.value)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == "hasattr" and len(e.args) == 2 and isinstance(
            e.args[1], ast.Constant) and \
            e.args[1].value == "TransientStorage":
        return True
    return None


def sig(node):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    return pos, len(pos) - nd, a.vararg, a.kwarg


def keyword_uses(ctx, mods):
    """Keywords with which functions of the modules are called."""
    out = {}
    for g in ctx.act.functions("ethereum"):
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and x.keywords and isinstance(
                    x.func, (ast.Name, ast.Attribute)):
                s = ctx.act.resolve_expr(g.mod, x.func)
                if s is not None and s.kind == "func" and \
                        s.node.mod.name in mods:
                    out.setdefault(s.node.qual, set()).update(
                        k.arg for k in x.keywords if k.arg)
    return out


@rule("C27")
def patch_agreement(ctx):
    """Each patch fits its target; nothing unpatched needs the old state."""
    out = []
    n = 0
    fn, ps = patches_of(
        ctx, "ethereum_optimized.state_db.get_optimized_state_patches")
    pfn, pw = patches_of(
        ctx, "ethereum_optimized.fork.get_optimized_pow_patches")
    kws = keyword_uses(ctx, {f"ethereum.{fk}.{x}" for fk in FORKS
                             for x in ("state", "fork")})
    for fk in FORKS:
        for host, plist, modname in ((fn, ps, "state"), (pfn, pw, "fork")):
            m = ctx.act.modules[f"ethereum.{fk}.{modname}"]
            if modname == "fork" and \
                    ctx.act.resolve(m, "validate_proof_of_work").kind != \
                    "func":
                continue
            tr = ctx.act.resolve(m, "TransientStorage").kind == "class"
            names = set()
            for node, guard in plist:
                skip = False
                for t, pol in guard:
                    r = transient_test(host, t)
                    if r is not None and (r == tr) != pol:
                        skip = True
                if skip:
                    continue
                names.add(node.name)
                s = ctx.act.resolve(m, node.name)
                if s.kind == "func" and isinstance(node, ast.FunctionDef):
                    n += 1
                    p, req, va, _ = sig(s.node.node)
                    q, qreq, qva, _ = sig(node)
                    if va or qva:
                        continue
                    bad = None
                    if len(q) < len(p) or (q[:len(p)] != p and
                                           set(q[:len(p)]) == set(p)):
                        bad = f"takes ({', '.join(q)}) for ({', '.join(p)})"
                    elif kws.get(s.node.qual, set()) - set(q):
                        bad = "does not take " + ", ".join(sorted(
                            kws[s.node.qual] - set(q)))
                    elif qreq > req:
                        bad = f"requires {', '.join(q[req:qreq])}"
                    if bad:
                        out.append(ctx.finding(
                            "patch-agreement", f"{host.qual}.{node.name}",
                            host.mod, node,
                            f"{bad} of the {fk} {node.name}"))
                elif s.kind == "class" and isinstance(node, ast.ClassDef):
                    n += 1
            if modname != "state":
                if "validate_proof_of_work" not in names:
                    out.append(ctx.finding(
                        "patch-agreement", host.qual, host.mod, host.node,
                        f"the {fk} proof-of-work check is not patched"))
                continue
            st = ctx.act.resolve(m, "State")
            if st.kind != "class":
                raise AnalysisBroken(f"no State in {fk}")
            fields = {f[0] for f in st.node.fields}
            for d in m.defs.values():
                if not isinstance(d, Func) or d.node.name in names:
                    continue
                stp = [x.arg for x in d.node.args.args
                       if x.annotation is not None and
                       ann_is(ctx, m, x.annotation, st.node.qual)]
                for x in ast.walk(d.node):
                    if isinstance(x, ast.Attribute) and x.attr in fields \
                            and isinstance(x.value, ast.Name) and \
                            x.value.id in stp:
                        n += 1
                        if d.node.name.startswith("_") and reached_only(
                                ctx, m, d, names):
                            continue
                        out.append(ctx.finding(
                            "patch-agreement", d.qual, m, x,
                            f"uses the plain state's {x.attr} and is not "
                            f"among the patches"))
                        break
    ctx.count("patches_matched", n)
    if not ps or not pw:
        ctx.notes.append("the patches are registered in an unknown way")
        return []
    if n < 10 * len(FORKS):
        raise AnalysisBroken("too few patches")
    return out


def ann_is(ctx, m, a, qual):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return a.value == qual.rpartition(".")[2]
    s = ctx.act.resolve_expr(m, a) if isinstance(
        a, (ast.Name, ast.Attribute)) else None
    return s is not None and s.kind == "class" and s.node.qual == qual


def reached_only(ctx, m, d, names):
    """A helper that only patched functions call."""
    for g in ctx.act.functions(m.name.rpartition(".")[0]):
        if g.node.name in names and g.mod is m:
            continue
        for x in ast.walk(g.node):
            if isinstance(x, (ast.Name, ast.Attribute)) and g is not d:
                s = ctx.act.resolve_expr(g.mod, x)
                if s is not None and s.kind == "func" and s.node is d:
                    return False
    return True
