"""Flow-sensitive gated value numbering over function bodies.

One linear pass per function computes, for every exit and every mutable
location, a *guarded value set* {(condition, term)}: the classical gated-SSA
value numbering, with conditions kept as BDDs over atomic comparisons in
normal form.  There is no path enumeration, no solver and no execution: joins
merge guarded values, loops are summarised by their iteration domain and the
per-iteration transfer terms.
"""
import ast
import copy
import builtins as _bi

from . import terms as tm
from .terms import (T, mk, Int, Bytes, Str, NONE, TRUE, FALSE, Bool, ZERO, ONE,
                    band, bor, bnot, ite, constrain, truth, var, is_bool,
                    kind, set_kind)
from .project import Func, Class, strip_doc
from .modref import MUTATORS
from . import faults
from .numtypes import NumTypes, BITS, UNSIGNED

CAP = 24

IDENT = {
    "ethereum_types.numeric.Uint", "ethereum_types.numeric.U256",
    "ethereum_types.numeric.U64", "ethereum_types.numeric.U32",
    "ethereum_types.numeric.U8", "ethereum_types.bytes.Bytes",
    "ethereum_types.bytes.Bytes0", "ethereum_types.bytes.Bytes1",
    "ethereum_types.bytes.Bytes4", "ethereum_types.bytes.Bytes8",
    "ethereum_types.bytes.Bytes20", "ethereum_types.bytes.Bytes32",
    "ethereum_types.bytes.Bytes48", "ethereum_types.bytes.Bytes64",
    "ethereum_types.bytes.Bytes96", "ethereum_types.bytes.Bytes256",
    "ethereum_types.numeric.FixedUnsigned", "ethereum_types.numeric.Unsigned",
    "typing.cast", "Literal",
}
SIGNED = {"to_signed"}
MAXIMA = {f"ethereum_types.numeric.{c}.MAX_VALUE": Int((1 << b) - 1)
          for c, b in BITS.items()}

# account-level writers of the world state that touch disjoint parts of it:
# relative order of two of them with different parts is unobservable
STATE_PART = {
    "increment_nonce": "nonce", "set_account_balance": "balance",
    "set_code": "code", "set_storage": "storage",
    "mark_account_created": "created",
}

PURE_METHODS = {
    "to_be_bytes32", "to_be_bytes", "to_le_bytes", "to_bytes", "hex",
    "get", "keys", "values", "items", "copy", "startswith", "endswith",
    "join", "encode", "decode", "format", "split", "strip", "rjust", "ljust",
    "zfill", "lower", "upper", "replace", "count", "index", "find",
    "bit_length", "wrapping_add", "wrapping_sub", "wrapping_mul", "to_signed",
    "to_le_bytes32", "to_be_bytes4", "rpartition", "partition", "digest",
    "hexdigest", "issubset", "union", "intersection", "difference", "is_file",
    "exists", "is_dir",
}


# results that no one else refers to
FRESH = {"bytes", "str", "int", "poly", "none", "tuple", "dict", "set",
         "concat", "setadd", "upd", "map", "slice", "repeat", "toset", "list",
         "mapset", "sorted", "sum", "copy", "setunion"}


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("env", "heap", "live")

    def __init__(self, env, heap, live):
        self.env, self.heap, self.live = env, heap, live

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.live)


class Frame:
    def __init__(self, fn, mod, cls):
        self.fn, self.mod, self.cls = fn, mod, cls
        self.returns = []
        self.selfname = None
        self.locals = set()
        self.handling = []
        self.yields = False


class Summary:
    __slots__ = ("ret", "heap", "aborts", "events", "na", "unsup", "log",
                 "final", "kept", "forced", "faults")


UNIT = ((TRUE, NONE),)


def one(t):
    return ((TRUE, t),)


def gnorm(pairs, live=TRUE):
    """Merge equal terms, drop dead alternatives, collapse booleans."""
    d = {}
    for g, t in pairs:
        if g is FALSE:
            continue
        if t.op == "gv" and len(t.args) <= 16:
            for i in range(0, len(t.args), 2):
                h, u = band(g, t.args[i]), t.args[i + 1]
                if h is not FALSE:
                    o = d.get(u)
                    d[u] = h if o is None else bor(o, h)
            continue
        o = d.get(t)
        d[t] = g if o is None else bor(o, g)
    if live is not TRUE:
        d = {t: g for t, g in d.items() if band(g, live) is not FALSE}
    if not d:
        return one(mk("dead"))
    if len(d) == 1:
        return one(next(iter(d)))
    if all(is_bool(t) for t in d):
        r = FALSE
        for t, g in d.items():
            r = bor(r, band(g, t))
        if live is not TRUE:
            r = constrain(r, live)
        return one(r)
    if len(d) == 2:
        (t1, g1), (t2, g2) = d.items()
        r = contract(t1, g1, t2, g2)
        if r is not None:
            return one(r)
    if 2 < len(d) <= 8 and any(has_gt0(g) for g in d.values()):
        contract_many(d)
        if len(d) == 1:
            return one(next(iter(d)))
    return tuple(sorted(((g, t) for t, g in d.items()),
                        key=lambda p: p[1].dig))


_gt0 = {}


def has_gt0(g):
    if g.op != "B":
        return False
    r = _gt0.get(g)
    if r is None:
        r = _gt0[g] = g.args[0].op == "gt0" or has_gt0(g.args[1]) or \
            has_gt0(g.args[2])
    return r


def contract_many(d):
    """min/max hidden among several guarded alternatives (in place)."""
    def ok(t):
        return t.op not in tm.SEQ_OPS and t.op not in (
            "none", "new", "dead", "undef") and not is_bool(t) and \
            kind(t) not in ("seq", "obj")
    again = True
    while again:
        again = False
        ts = sorted((t for t in d if ok(t)), key=lambda t: t.dig)
        for a in ts:
            ga = d[a]
            if not has_gt0(ga):
                continue
            for b in ts:
                if a is b or tm.sub(a, b).op == "int":
                    continue
                for c, m in ((tm.lt(b, a), "max"), (tm.le(b, a), "max"),
                             (tm.lt(a, b), "min"), (tm.le(a, b), "min")):
                    if c.op != "B" or band(ga, bnot(c)) is not FALSE:
                        continue
                    v, lo, hi = c.args
                    h = tm.restrict(ga, v, hi is TRUE)
                    if h is ga:
                        continue
                    other = band(h, bnot(c))
                    if band(other, bnot(d[b])) is not FALSE:
                        continue
                    del d[a]
                    gb = band(d[b], bnot(other))
                    if gb is FALSE:
                        del d[b]
                    else:
                        d[b] = gb
                    t = tm.minmax(m, [a, b])
                    d[t] = bor(d.get(t, FALSE), h)
                    again = True
                    break
                if again:
                    break
            if again:
                break


def contract(t1, g1, t2, g2):
    """Recognise min/max written as a conditional."""
    if g1.op != "B" or g2 is not bnot(g1):
        return None
    v, lo, hi = g1.args
    if not ((lo is FALSE and hi is TRUE) or (lo is TRUE and hi is FALSE)):
        return None
    if v.op not in ("gt0", "zero"):
        return None
    if tm.SEQ_OPS.__contains__(t1.op) or tm.SEQ_OPS.__contains__(t2.op):
        return None
    if t1.op in ("none",) or t2.op in ("none",) or is_bool(t1) or is_bool(t2):
        return None
    if hi is FALSE:          # t1 chosen when v false
        t1, t2 = t2, t1
    # now t1 chosen when v true
    if v.op == "zero":
        # x == 0 ? t1 : t2  with {t1,t2} = {0|1, x}
        x = v.args[0]
        if t1.op == "int" and t1.args[0] == 1 and t2 is x:
            return tm.minmax("max", [x, ONE])
        if t1.op == "int" and t1.args[0] == 0 and t2 is x:
            return x
        if t1 is x and t2.op == "int" and t2.args[0] == 1:
            return tm.minmax("min", [x, ONE])
        return None
    p = v.args[0]
    d = tm.sub(t1, t2)
    if d.op == "int":
        return None
    k = tm.sub(p, d)
    if k.op == "int" and k.args[0] in (0, 1):
        return tm.minmax("max", [t1, t2])
    k = tm.sub(p, tm.sub(t2, t1))
    if k.op == "int" and k.args[0] in (0, 1):
        return tm.minmax("min", [t1, t2])
    return None


class Evaluator:
    MAX_INLINE = 12

    def __init__(self, tree, boundary, infos, inline_extra=(), const_opaque=None,
                 root_tree=None):
        self.tree = tree
        self.boundary = boundary        # quals treated as opaque
        self.infos = infos              # mod/ref infos for boundary quals
        self.const_opaque = const_opaque or set()
        self.kinds = tree.field_kinds()
        nt = getattr(tree, "_numtypes", None)
        if nt is None:
            nt = tree._numtypes = NumTypes(tree)
        self.nt = nt
        self._const = {}
        self._const_busy = set()
        self.reset()

    def reset(self):
        self.st = State({}, {}, TRUE)
        self.events = []
        self.aborts = []
        self.frames = []
        self.loops = []
        self.unsup = []
        self.depth = 0
        self.log = []
        self.stack = []
        self.steps = 0
        self.pkinds = {}
        self.value_lv = set()
        self.pclass = {}
        self.captured = {}
        self.punion = {}            # term -> members of its declared union
        self.forced = set()         # callees kept opaque although inlinable
        self.kept = {}              # exception class -> [(live, heap)]
        self.points = []            # state at each watched call
        self.n_watch = 0
        self.faults = []            # implicit exceptions not ruled out
        self.n_faults = 0
        self.tags = []              # enclosing closure definitions
        self.called = set()         # closures whose calls are analysed
        self.loop_faults = set()    # (exception, what) considered inside loops
        self.outer = []             # conditions at enclosing loops
        self.facts = []             # polynomials >= 0 (loop indices)
        self.bounds = {}            # term -> maximum, from its class

    # callees at which the state is recorded (see rules/order.py)
    WATCH = frozenset()

    def note_union(self, t, mod, a):
        if a is None or t in self.punion or t.op in (
                "int", "bytes", "str", "none", "gv", "missing"):
            return
        try:
            u = self.tree.union_of(mod, a)
        except RecursionError:
            u = None
        if u is not None:
            self.punion[t] = u

    def is_instance(self, t, q):
        """Condition that `t` is an instance of the class named q."""
        u = self.punion.get(t)
        if t.op == "exc" and isinstance(q, str):
            if self.is_subclass(t.args[0], q):
                return TRUE
            if not self.is_subclass(q, t.args[0]):
                return FALSE
        if t.op == "int" and isinstance(q, str) and \
                q.startswith("ethereum_types.numeric."):
            return TRUE
        if u is None or q not in u:
            return var(mk("isinst", t, q))
        if "None" in u:
            c = bnot(tm.isnone(t))
            u = [x for x in u if x != "None"]
        else:
            c = TRUE
        for x in u:
            if x == q:
                if x != u[-1]:
                    c = band(c, var(mk("isinst", t, x)))
                return c
            c = band(c, bnot(var(mk("isinst", t, x))))
        return c

    # ------------------------------------------------------------- summary
    def summarize(self, fn):
        """Summary of a function in terms of its parameters."""
        self.reset()
        fr = Frame(fn, fn.mod, fn.cls)
        self.frames.append(fr)
        self.stack.append(fn.qual)
        env = {}
        a = fn.node.args
        names = [x for x in a.posonlyargs + a.args]
        i = 0
        for x in names:
            t = mk("param", i)
            self._kind_from_ann(t, x.annotation)
            self.note_union(t, fn.mod, x.annotation)
            if x.annotation is not None:
                try:
                    c = self.tree.resolve_expr(fn.mod, x.annotation)
                except RecursionError:
                    c = None
                if c is not None and c.kind == "class":
                    self.pclass[t] = c.node
            elif i == 0 and fn.cls is not None and not any(
                    isinstance(d, ast.Name) and d.id in (
                        "staticmethod", "classmethod")
                    for d in fn.node.decorator_list):
                self.pclass[t] = fn.cls
            env[x.arg] = one(t)
            i += 1
        if a.vararg:
            t = mk("param", i)
            t.kind_ = t.kind_ or "seq"
            env[a.vararg.arg] = one(t)
            i += 1
        for x in a.kwonlyargs:
            t = mk("param", i)
            env[x.arg] = one(t)
            i += 1
        if a.kwarg:
            env[a.kwarg.arg] = one(mk("param", i))
        self.st = State(env, {}, TRUE)
        self.body(strip_doc(fn.node), fr)
        ret, heap, live = self.finish_returns(fr)
        s = Summary()
        s.na = live
        s.ret = ret
        s.final = heap
        s.heap = self.observable(heap)
        ab = {}
        for g, c in self.aborts:
            ab[c] = bor(ab.get(c, FALSE), g)
        s.aborts = {c: g for c, g in ab.items() if g is not FALSE}
        ev = {}
        for g, e in self.events:
            ev[e] = bor(ev.get(e, FALSE), g)
        s.events = {e: g for e, g in ev.items() if g is not FALSE}
        s.unsup = list(self.unsup)
        s.log = self.log
        s.forced = self.forced
        s.faults = faults.Faults(
            [f[:4] for f in self.faults if f[4] not in self.called],
            self.n_faults, self.loop_faults)
        s.kept = {}
        for c, l in self.kept.items():
            live = FALSE
            for g, _ in l:
                live = bor(live, g)
            h = self.merge_heaps([(constrain(g, live), x) for g, x in l],
                                 live)
            s.kept[c] = (live, self.observable(h))
        return s

    def _kind_from_ann(self, t, ann):
        # params are shared terms: kinds are tracked per evaluator instead
        k = self.tree.ann_kind(ann)
        if k in ("int", "seq", "obj"):
            self.pkinds[t] = k

    def observable(self, heap):
        """Final heap keyed by access path, with contents resolved."""
        out = {}
        for (o, a), gv in heap.items():
            if a == "*":
                if o.op == "attr" and (o.args[0], o.args[1]) in heap:
                    continue
                key = (o, "*")
                if o.op == "attr":
                    key = (o.args[0], o.args[1])
                val = gv
            else:
                key = (o, a)
                val = self.gmap(lambda t: heap.get((t, "*"), one(t)), gv)
            if any(t.op == "tuple" for _, t in val):
                val = self.gmap(lambda t: self.content1(t, heap), val)
            init = o if a == "*" else mk("attr", o, a)
            if len(val) == 1 and val[0][1] is init:
                continue
            out[key] = val
        return out

    def gmap(self, f, gv):
        out = []
        for g, t in gv:
            for h, u in f(t):
                out.append((band(g, h), u))
        return gnorm(out)

    # ------------------------------------------------------------- frames
    def body(self, stmts, fr):
        for s in stmts:
            if self.st.live is FALSE:
                break
            self.stmt(s)
        if self.st.live is not FALSE:
            v = UNIT
            if fr.yields:
                v = self.st.env.get("@yield", one(mk("tuple")))
            fr.returns.append((self.st.live, v, self.st.heap))
            self.st.live = FALSE

    def finish_returns(self, fr):
        rs = [r for r in fr.returns if r[0] is not FALSE]
        if not rs:
            return one(mk("dead")), {}, FALSE
        if len(rs) == 1:
            return rs[0][1], rs[0][2], rs[0][0]
        live = FALSE
        for l, _, _ in rs:
            live = bor(live, l)
        cs = [constrain(l, live) for l, _, _ in rs]
        ret = gnorm([(band(c, g), t) for c, (l, v, h) in zip(cs, rs)
                     for g, t in v], live)
        heap = self.merge_heaps([(c, h) for c, (l, v, h) in zip(cs, rs)],
                                live)
        return ret, heap, live

    def merge_heaps(self, chs, live):
        keys = []
        seen = set()
        for _, h in chs:
            for k in h:
                if k not in seen:
                    seen.add(k)
                    keys.append(k)
        out = {}
        for k in keys:
            vals = [h.get(k) for _, h in chs]
            v0 = vals[0]
            if v0 is not None and all(v is v0 or v == v0 for v in vals):
                out[k] = v0
                continue
            pairs = []
            for (c, h), v in zip(chs, vals):
                if v is None:
                    v = self.initial(k, h)
                pairs.extend((band(c, g), t) for g, t in v)
            out[k] = gnorm(pairs, live)
        return out

    def initial(self, k, heap):
        o, a = k
        if a == "*":
            return one(o)
        return self.read_attr1(o, a, heap)

    def merge(self, c, a, b):
        """Join of branch states a (under c) and b (under not c)."""
        if a.live is FALSE:
            return b
        if b.live is FALSE:
            return a
        live = bor(a.live, b.live)
        env = {}
        nc = bnot(c)
        for k in a.env.keys() | b.env.keys():
            va, vb = a.env.get(k), b.env.get(k)
            if va is vb or va == vb:
                env[k] = va
                continue
            va = va or one(mk("undef"))
            vb = vb or one(mk("undef"))
            env[k] = gnorm([(band(c, g), t) for g, t in va]
                           + [(band(nc, g), t) for g, t in vb], live)
        heap = self.merge_heaps([(c, a.heap), (nc, b.heap)], live)
        return State(env, heap, live)

    def merge_many(self, sts):
        sts = [s for s in sts if s.live is not FALSE]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        live = FALSE
        for s in sts:
            live = bor(live, s.live)
        cs = [constrain(s.live, live) for s in sts]
        env = {}
        keys = set()
        for s in sts:
            keys |= s.env.keys()
        for k in keys:
            vs = [s.env.get(k) or one(mk("undef")) for s in sts]
            if all(v == vs[0] for v in vs):
                env[k] = vs[0]
            else:
                env[k] = gnorm([(band(c, g), t) for c, v in zip(cs, vs)
                                for g, t in v], live)
        heap = self.merge_heaps(list(zip(cs, [s.heap for s in sts])), live)
        return State(env, heap, live)

    # ---------------------------------------------------------- gv helpers
    def prune(self, gv):
        if len(gv) == 1:
            return gv
        live = self.st.live
        out = [(g, t) for g, t in gv if band(g, live) is not FALSE]
        if len(out) == len(gv):
            return gv
        if len(out) == 1:
            return one(out[0][1])
        return gnorm(out)

    def term(self, gv):
        """Collapse a guarded value to one canonical term."""
        gv = self.prune(gv)
        if len(gv) == 1:
            return gv[0][1]
        live = self.st.live
        d = {}
        for g, t in gv:
            if t.op == "gv":
                for i in range(0, len(t.args), 2):
                    gg = band(g, t.args[i])
                    u = t.args[i + 1]
                    d[u] = bor(d.get(u, FALSE), gg)
            else:
                d[t] = bor(d.get(t, FALSE), g)
        flat = []
        for t in sorted(d, key=lambda t: t.dig):
            flat.append(constrain(d[t], live))
            flat.append(t)
        if len(flat) == 2:
            return flat[1]
        r = mk("gv", *flat)
        return r

    def lift(self, f, *gvs):
        gvs = [self.prune(g) for g in gvs]
        n = 1
        for g in gvs:
            n *= len(g)
        if n == 1:
            r = f(*[g[0][1] for g in gvs])
            return one(r)
        live = self.st.live
        combos = [(TRUE, ())]
        for gv in gvs:
            nc = []
            for g, ts in combos:
                for h, t in gv:
                    gg = band(g, h)
                    if gg is not FALSE and (n <= CAP or band(
                            gg, live) is not FALSE):
                        nc.append((gg, ts + (t,)))
            combos = nc
            if len(combos) > CAP:
                gvs = [one(self.term(g)) for g in gvs]
                return one(f(*[g[0][1] for g in gvs]))
        return gnorm([(g, f(*ts)) for g, ts in combos], live)

    def combos(self, gvs, cap=CAP):
        gvs = [self.prune(g) for g in gvs]
        n = 1
        for g in gvs:
            n *= len(g)
        combos = [(TRUE, ())]
        for gv in gvs:
            nc = []
            for g, ts in combos:
                for h, t in gv:
                    gg = band(g, h)
                    if gg is not FALSE and (
                            gg is TRUE or band(gg, self.st.live)
                            is not FALSE):
                        nc.append((gg, ts + (t,)))
            combos = nc
            if len(combos) > cap:
                return [(TRUE, tuple(self.term(g) for g in gvs))]
        return combos

    def cond_of(self, gv):
        r = FALSE
        for g, t in gv:
            r = bor(r, band(g, self.truth(t)))
        return r

    def truth(self, t):
        if t in getattr(self, "pkinds", {}) and self.pkinds[t] == "obj":
            return bnot(tm.isnone(t))
        return truth(t)

    def k(self, t):
        k = kind(t)
        if k is None:
            k = self.pkinds.get(t) if hasattr(self, "pkinds") else None
        return k

    # ---------------------------------------------------------------- heap
    def content(self, gv):
        h = self.st.heap
        if not h:
            return gv
        for g, t in gv:
            if (t, "*") in h or t.op == "tuple":
                break
        else:
            return gv
        return self.gmap(lambda t: self.content1(t, h), gv)

    def content1(self, t, h):
        c = h.get((t, "*"))
        if c is not None:
            return c
        if t.op == "tuple" and 0 < len(t.args) <= 12 and any(
                (x, "*") in h or x.op == "tuple" for x in t.args):
            parts = [self.content1(x, h) for x in t.args]
            if all(len(p) == 1 and p[0][1] is x
                   for p, x in zip(parts, t.args)):
                return one(t)
            return self.lift(lambda *xs: mk("tuple", *xs), *parts)
        return one(t)

    def read_attr1(self, o, a, heap):
        v = heap.get((o, a))
        if v is not None:
            return v
        c = heap.get((o, "*"))
        if c is not None:
            k = self.tclass(o)
            if k is not None and k[0] == "cls" and self.nt.stable(k[1], a):
                return one(self.attr_term(o, a))
            return gnorm([(g, self.attr_term(t, a)) for g, t in c])
        return one(self.attr_term(o, a))

    def tclass(self, t, depth=0):
        """Declared class of a value, from the term alone."""
        if t.op == "new":
            return ("cls", t.args[0])
        if t in self.pclass:
            return ("cls", self.pclass[t].qual)
        if depth > 6:
            return None
        if t.op == "attr":
            k = self.tclass(t.args[0], depth + 1)
            if k is not None and k[0] == "cls":
                c = self.tree.get_class(k[1])
                if c is not None:
                    return self.nt.field(c, t.args[1])
            return None
        if t.op == "index":
            k = self.tclass(t.args[0], depth + 1)
            if k is not None and k[0] in ("list", "dict"):
                return k[1]
        return None

    def attr_term(self, o, a):
        if o.op == "new":
            fs = o.args[1:]
            for i in range(0, len(fs), 2):
                if fs[i] == a:
                    return fs[i + 1]
        if o.op == "class":
            return mk("attr", o, a)
        t = mk("attr", o, a)
        if t.kind_ is None:
            k = self.kinds.get(a)
            if k in ("int", "seq", "obj"):
                t.kind_ = k
        return t

    def read_attr(self, gv, a):
        gv = self.prune(gv)
        if len(gv) == 1:
            o = gv[0][1]
            if o.op == "gv":
                gv = tuple((o.args[i], o.args[i + 1])
                           for i in range(0, len(o.args), 2))
            else:
                p = self.property_of(o, a)
                if p is not None:
                    return p
                return self.prune(self.read_attr1(o, a, self.st.heap))
        out = []
        for g, o in gv:
            for h, t in self.read_attr1(o, a, self.st.heap):
                out.append((band(g, h), t))
        return gnorm(out, self.st.live)

    def property_of(self, o, a):
        """Inline a property introduced on the class of self."""
        if o.op != "param" or o.args[0] != 0 or not self.frames:
            return None
        c = self.frames[0].cls
        if c is None:
            return None
        m = self.tree.find_method(c, a)
        if m is None or m.qual in self.boundary:
            return None
        if not any(isinstance(d, ast.Name) and d.id in
                   ("property", "cached_property")
                   for d in m.node.decorator_list):
            return None
        return self.inline(m, [one(o)], {})

    def write_attr(self, ogv, a, val):
        ogv = self.prune(ogv)
        heap = self.st.heap
        if len(ogv) == 1:
            heap[(ogv[0][1], a)] = val
            return
        for g, o in ogv:
            old = self.read_attr1(o, a, heap)
            heap[(o, a)] = gnorm([(band(g, h), t) for h, t in val]
                                 + [(band(bnot(g), h), t) for h, t in old],
                                 self.st.live)

    def write_content(self, o, val, g=TRUE):
        heap = self.st.heap
        if g is TRUE:
            heap[(o, "*")] = val
        else:
            old = heap.get((o, "*"), one(o))
            heap[(o, "*")] = gnorm([(band(g, h), t) for h, t in val]
                                   + [(band(bnot(g), h), t) for h, t in old],
                                   self.st.live)
        for k in [k for k in heap if k[0] is o and k[1] != "*"]:
            del heap[k]

    VALUE_OPS = {"copy", "bytes", "tuple", "dict", "set", "concat", "setadd", "upd",
                 "map", "slice", "repeat", "toset", "str", "dead", "post0",
                 "sum", "poly", "loopout", "gv", "list", "mapset", "sorted"}

    def is_value(self, o):
        return o.op in self.VALUE_OPS or o in self.value_lv

    def mutate(self, node, gv, f):
        """In-place mutation of the container denoted by `node`: f(old)->new
        (a gv)."""
        gv = self.prune(gv)
        for g, o in gv:
            cur = self.content(one(o))
            new = self.gmap(f, cur)
            if self.is_value(o):
                # fresh value: functional update of the holder
                if isinstance(node, ast.Name) and node.id in self.st.env:
                    old = self.st.env[node.id]
                    self.rebind(node, old, new if g is TRUE else gnorm(
                        [(band(g, h), t) for h, t in new]
                        + [(band(bnot(g), h), t) for h, t in old]))
                    continue
                if isinstance(node, ast.Attribute):
                    b = self.expr(node.value)
                    old = self.read_attr(b, node.attr)
                    self.rebind(node, old, new if g is TRUE else gnorm(
                        [(band(g, h), t) for h, t in new]
                        + [(band(bnot(g), h), t) for h, t in old]))
                    continue
                if isinstance(node, ast.Subscript):
                    b = self.expr(node.value)
                    i = self.expr(node.slice)
                    self.mutate(node.value, b, lambda old: self.lift(
                        lambda v, ix: self.upd_set(old, ix, v), new, i))
                    continue
            self.write_content(o, new, g)

    # locations that hold the same container object, recorded when a plain
    # name or attribute is copied into a local variable
    def location(self, node):
        if isinstance(node, ast.Name):
            if node.id in self.st.env:
                return mk("lname", node.id)
            return None
        if isinstance(node, ast.Attribute) and self.static(node) is None:
            n_ev = len(self.events)
            b = self.expr(node.value)
            del self.events[n_ev:]
            if len(b) == 1:
                return mk("lattr", b[0][1], node.attr)
        return None

    def alias_note(self, name, node):
        """`name = <name or attribute>`"""
        env = self.st.env
        pairs = self.alias_pairs()
        pairs = {p for p in pairs
                 if not any(x.op == "lname" and x.args[0] == name
                            for x in p.args)}
        if isinstance(node, (ast.Name, ast.Attribute)):
            loc = self.location(node)
            me = mk("lname", name)
            if loc is not None and loc is not me:
                pairs.add(mk("same", me, loc))
        if pairs or "@al" in env:
            env["@al"] = one(mk("aliases", *sorted(pairs)))

    def alias_pairs(self):
        v = self.st.env.get("@al")
        out = set()
        for _, t in v or ():
            if t.op == "aliases":
                out |= set(t.args)
        return out

    def rebind(self, node, old, new):
        """The container held by `node` was updated in place."""
        loc = self.location(node)
        self.write_loc(loc, node, new)
        pairs = self.alias_pairs()
        if not pairs or loc is None:
            return
        group, todo = {loc}, [loc]
        while todo:
            x = todo.pop()
            for p in pairs:
                if x in p.args:
                    for y in p.args:
                        if y not in group:
                            group.add(y)
                            todo.append(y)
        for y in group - {loc}:
            if y.op == "lname":
                cur = self.st.env.get(y.args[0])
            else:
                cur = self.read_attr(one(y.args[0]), y.args[1])
            if cur is not None and (cur == old or self.prune(cur)
                                    == self.prune(old)):
                self.write_loc(y, None, new)

    def write_loc(self, loc, node, new):
        if loc is not None and loc.op == "lname":
            self.st.env[loc.args[0]] = new
        elif loc is not None:
            self.write_attr(one(loc.args[0]), loc.args[1], new)
        elif isinstance(node, ast.Name):
            self.st.env[node.id] = new
        elif isinstance(node, ast.Attribute):
            self.write_attr(self.expr(node.value), node.attr, new)

    def upd_set(self, old, k, v):
        if v.op == "index" and v.args[1] is k and v.args[0] is old:
            return old
        while old.op == "upd" and old.args[0] == "set" and \
                old.args[2] is k:
            old = old.args[1]
        return mk("upd", "set", old, k, v)

    def upd_del(self, old, k):
        while old.op == "upd" and old.args[0] in ("set", "del") and \
                old.args[2] is k:
            old = old.args[1]
        return mk("upd", "del", old, k)

    def lookup(self, f, base, name, args):
        """get/pop/setdefault of a dictionary, spelt with `in` and `[]`."""
        t = self.ty(f.value)
        if t is None or t[0] != "dict" or not args or len(args) > 2:
            return None
        if name == "setdefault" and len(args) != 2:
            return None
        cur = self.content(base)
        out = []
        for g, ts in self.combos([cur, args[0]]):
            d, k = ts
            c = tm.contains(k, d)
            x = self.index(d, k)
            if len(t) > 3 and t[3]:
                tm.NONNULL.add(x)
            if name == "pop" and len(args) == 1:
                out.append((g, x))
                continue
            out.append((band(g, c), x))
            for h, y in (args[1] if len(args) > 1 else one(NONE)):
                out.append((band(band(g, bnot(c)), h), y))
        r = gnorm(out, self.st.live)
        if name == "pop":
            if len(args) == 1:
                self.mutate(f.value, base, lambda old: self.lift(
                    lambda k: self.upd_del(old, k), args[0]))
            else:
                return None
        elif name == "setdefault":
            def put(old):
                res = []
                for g, k in args[0]:
                    c = tm.contains(k, old)
                    res.append((band(g, c), old))
                    for h, y in args[1]:
                        res.append((band(band(g, bnot(c)), h),
                                    self.upd_set(old, k, y)))
                return gnorm(res, self.st.live)
            self.mutate(f.value, base, put)
        return r

    # ------------------------------------------------------------ recording
    def event(self, t, g=TRUE):
        gg = band(self.st.live, g)
        if gg is not FALSE:
            self.events.append((gg, t))

    def note(self, what, node, **kw):
        """Analysis log entry (used by path rules)."""
        self.log.append((what, self.st.live, node, kw,
                         self.frames[-1].fn.qual if self.frames and
                         self.frames[-1].fn else None))

    def abort(self, cls, g=None):
        if self.st.live is not FALSE:
            self.aborts.append((self.st.live, cls))
        self.st.live = FALSE

    def unsupported(self, node, why):
        self.unsup.append((getattr(node, "lineno", 0), why))

    # ----------------------------------------------------------- statements
    def stmt(self, s):
        self.steps += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported(s, type(s).__name__)
            self.event(mk("unsup", ast.dump(s)))
            return
        m(s)

    def block(self, stmts):
        for s in stmts:
            if self.st.live is FALSE:
                return
            self.stmt(s)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        for n in s.names:
            self.frames[-1].locals.discard(n)
            self.st.env["@global:" + n] = one(TRUE)

    s_Nonlocal = s_Pass
    s_Import = s_Pass

    def s_ImportFrom(self, s):
        # function-level import: bind names
        mod = self.frames[-1].mod
        base = s.module or ""
        if s.level:
            p = mod.pkg().split(".")
            if s.level > 1:
                p = p[:-(s.level - 1)]
            base = ".".join(p + ([base] if base else []))
        for a in s.names:
            sym = self.tree.resolve_dotted(f"{base}.{a.name}")
            self.st.env[a.asname or a.name] = self.sym_value(sym)

    def s_Import(self, s):  # noqa: F811
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            self.st.env[nm] = one(mk("module", a.name if a.asname else nm))

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            self.expr(v)
            return
        r = self.expr(v, stmt=True)
        del r

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.alias_note(t.id, s.value)
            self.assign(t, v)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) \
                and isinstance(s.value, ast.Name):
            loc = self.location(s.targets[0])
            me = self.location(s.value)
            if loc is not None and me is not None:
                pairs = self.alias_pairs() | {mk("same", me, loc)}
                self.st.env["@al"] = one(mk("aliases", *sorted(pairs)))

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.expr(s.value)
            if isinstance(s.target, ast.Name):
                self.alias_note(s.target.id, s.value)
            self.assign(s.target, v)

    def s_AugAssign(self, s):
        val = self.expr(s.value)
        tgt = s.target
        if isinstance(s.op, ast.BitOr) and isinstance(
                tgt, (ast.Name, ast.Attribute)):
            load = copy.copy(tgt)
            load.ctx = ast.Load()
            b = self.expr(load)
            if self.is_set(tgt, b):
                # in place, like update()
                val = self.content(val)
                self.mutate(load, b, lambda old: self.lift(
                    lambda x: tm.union(old, x),
                    val))
                return

        def check(cur):
            ta = self.bounded(tgt, cur)
            if ta is not None:
                self.arith_faults(s, s.op, ta, self.bounded(s.value, val),
                                  cur, val)
        if isinstance(tgt, ast.Name):
            cur = self.expr(ast.Name(id=tgt.id, ctx=ast.Load()))
            check(self.content(cur))
            self.assign(tgt, self.binop(s.op, self.content(cur), val))
        elif isinstance(tgt, ast.Attribute):
            b = self.expr(tgt.value)
            cur = self.content(self.read_attr(b, tgt.attr))
            check(cur)
            self.write_attr(b, tgt.attr, self.binop(s.op, cur, val))
        elif isinstance(tgt, ast.Subscript):
            b = self.expr(tgt.value)
            i = self.expr(tgt.slice)
            if not isinstance(tgt.slice, ast.Slice):
                self.index_faults(tgt, self.content(b), i)
            cur = self.lift(self.index, self.content(b), i)
            check(cur)
            nv = self.binop(s.op, cur, val)
            self.mutate(tgt.value, b, lambda old: self.lift(
                lambda ix, v: self.upd_set(old, ix, v), i, nv))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if ("@global:" + t.id) in self.st.env:
                self.st.heap[(mk("global", self.frames[-1].mod.name),
                              t.id)] = v
                return
            self.st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value)
            self.write_attr(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value)
            if isinstance(t.slice, ast.Slice):
                lo, hi, stp = self.slice_parts(t.slice, b)
                self.mutate(t.value, b, lambda old: self.lift(
                    lambda l, h, x: mk("upd", "setslice", old, l,
                                       self.canon_hi(old, l, h), x),
                    lo, hi, v))
            else:
                i = self.from_start(self.content(b), self.expr(t.slice))
                self.mutate(t.value, b, lambda old: self.lift(
                    lambda ix, x: self.upd_set(old, ix, x), i, v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for j, e in enumerate(t.elts):
                    e2 = e.value if isinstance(e, ast.Starred) else e
                    self.assign(e2, self.lift(
                        lambda x: mk("unpack", x, j, len(t.elts)), v))
                return
            cv = v if all(x.op == "tuple" for _, x in v) else \
                self.content(v)
            for j, e in enumerate(t.elts):
                self.assign(e, self.lift(
                    lambda x: self.index(x, Int(j)), cv))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def canon_hi(self, old, lo, hi):
        return hi

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.expr(t.value)
                if isinstance(t.slice, ast.Slice):
                    lo, hi, stp = self.slice_parts(t.slice, b)
                    self.mutate(t.value, b, lambda old: self.lift(
                        lambda l, h: mk("upd", "delslice", old, l, h),
                        lo, hi))
                else:
                    i = self.expr(t.slice)
                    self.mutate(t.value, b, lambda old: self.lift(
                        lambda ix: self.upd_del(old, ix), i))
            elif isinstance(t, ast.Attribute):
                b = self.expr(t.value)
                self.write_attr(b, t.attr, one(mk("deleted")))

    def s_If(self, s):
        c = self.cond(s.test)
        if self.st.live is FALSE:
            return
        self.branch(c, lambda: self.block(s.body),
                    lambda: self.block(s.orelse))

    def branch(self, c, then, els):
        base = self.st
        l1 = band(base.live, c)
        l2 = band(base.live, bnot(c))
        if l1 is FALSE:
            els()
            return
        if l2 is FALSE:
            then()
            return
        other = base.copy()
        self.st = base
        base.live = l1
        then()
        a = self.st
        self.st = other
        other.live = l2
        els()
        b = self.st
        self.st = self.merge(c, a, b)

    def s_Match(self, s):
        d = getattr(s, "_as_if", None)
        if d is None:
            d = s._as_if = match_as_if(s)
        if not d:
            self.unsupported(s, "Match")
            self.event(mk("unsup", "match"))
            return
        for x in d:
            self.stmt(x)

    def s_Return(self, s):
        fr = self.frames[-1]
        v = UNIT if s.value is None else self.expr(s.value)
        if self.st.live is FALSE:
            return
        if len(self.frames) == 1:
            v = self.content(v)
        if fr.yields:
            v = self.st.env.get("@yield", one(mk("tuple")))
        fr.returns.append((self.st.live, v, dict(self.st.heap)))
        self.st.live = FALSE

    def s_Raise(self, s):
        cls = "?"
        if s.exc is None:
            fr = self.frames[-1]
            cls = "reraise:" + (fr.handling[-1] if fr.handling else "?")
        else:
            e = s.exc
            target = e.func if isinstance(e, ast.Call) else e
            sym = None
            if not (isinstance(target, ast.Name)
                    and target.id in self.st.env):
                sym = self.static(target)
            if sym is not None and sym.kind == "func":
                # raise make_error(...): class of the produced value
                v = self.expr(e)
                t = self.term(v)
                cls = t.args[0] if t.op == "new" else "dyn:" + \
                    t.dig.hex()[:8]
            elif sym is not None and sym.kind in ("class", "ext", "builtin"):
                cls = sym.qual
                if isinstance(e, ast.Call):
                    for a in e.args:
                        if any(isinstance(x, ast.Call)
                               for x in ast.walk(a)) and not isinstance(
                                   a, (ast.JoinedStr, ast.BinOp)):
                            self.expr(a)
            else:
                v = self.expr(target)
                cls = "dyn"
                for g, t in v:
                    if t.op == "exc":
                        cls = "reraise:" + t.args[0]
                    elif t.op == "new":
                        cls = t.args[0]
        self.note("raise", s, cls=cls)
        if cls.rpartition(".")[2] in self.KEPT and not self.loops and \
                self.st.live is not FALSE:
            self.kept.setdefault(cls, []).append(
                (self.st.live, dict(self.st.heap)))
        self.abort(cls)

    # exceptions whose handler keeps the frame's effects (output, gas)
    KEPT = {"Revert"}

    def s_Assert(self, s):
        c = self.cond(s.test)
        base = self.st.live
        bad = band(base, bnot(c))
        if bad is not FALSE:
            self.aborts.append((bad, "AssertionError"))
        self.st.live = band(base, c)

    def s_Break(self, s):
        if not self.loops:
            return
        self.loops[-1]["breaks"].append(self.st.copy())
        self.st.live = FALSE

    def s_Continue(self, s):
        if not self.loops:
            return
        self.loops[-1]["conts"].append(self.st.copy())
        self.st.live = FALSE

    def s_FunctionDef(self, s):
        t = self.closure_term(s)
        CLOSURES[t] = (s, self.frames[-1])
        self.captured[(t, id(self.frames[-1]))] = self.capture(s)
        self.st.env[s.name] = one(t)

    def capture(self, s):
        """What the free names of a nested function denote now."""
        names = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
        names -= {a.arg for a in ast.walk(s) if isinstance(a, ast.arg)}
        names.discard(s.name)
        return {n: self.st.env[n] for n in names if n in self.st.env}

    s_AsyncFunctionDef = s_FunctionDef

    def closure_term(self, s):
        """Value of a nested function: its transfer over its parameters."""
        a = s.args
        params = a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) \
            + a.kwonlyargs + ([a.kwarg] if a.kwarg else [])
        if any(isinstance(x, (ast.Nonlocal, ast.Global, ast.Yield,
                              ast.YieldFrom, ast.Await))
               for x in ast.walk(s)) or s.decorator_list:
            return mk("closure", ast.dump(ast.Module(
                body=strip_doc(s), type_ignores=[])), ast.dump(a))
        fn = Func("closure." + s.name, s, self.frames[-1].mod,
                  self.frames[-1].cls)
        if fn.qual in self.stack:
            return mk("closure", "rec", fn.qual)
        fr = Frame(fn, fn.mod, fn.cls)
        env = dict(self.st.env)
        flat = []
        for i, x in enumerate(params):
            lp = mk("lp", sum(q.startswith("closure.")
                              for q in self.stack) + 1, i)
            env[x.arg] = one(lp)
            self._kind_from_ann(lp, x.annotation)
        for d in list(a.defaults) + [d for d in a.kw_defaults if d]:
            flat.append(self.term(self.expr(d)))
        sv = (self.st, self.events, self.aborts, self.loops)
        pre = dict(self.st.heap)
        self.st = State(env, dict(pre), TRUE)
        self.events, self.aborts, self.loops = [], [], []
        self.frames.append(fr)
        self.stack.append(fn.qual)
        self.outer.append(sv[0].live)
        self.tags.append(id(s))
        try:
            self.body(strip_doc(s), fr)
            ret, heap, live = self.finish_returns(fr)
            events, aborts = self.events, self.aborts
            self.st = State({}, {}, live if live is not FALSE else TRUE)
            flat.append(mk("ret", self.term(ret)))
            before, after = self.observable(pre), self.observable(heap)
            for k in sorted(after, key=lambda k: (k[0].dig, str(k[1]))):
                if before.get(k) != after[k]:
                    flat.append(mk("wr", k[0], k[1], self.term(after[k])))
            ab, ev = {}, {}
            for g, c in aborts:
                ab[c] = bor(ab.get(c, FALSE), g)
            for g, e in events:
                ev[e] = bor(ev.get(e, FALSE), g)
            for c in sorted(ab):
                flat.append(mk("ab", c, ab[c]))
            for e in sorted(ev):
                flat.append(mk("ev", e, ev[e]))
        finally:
            self.outer.pop()
            self.tags.pop()
            self.frames.pop()
            self.stack.pop()
            self.st, self.events, self.aborts, self.loops = sv
        return mk("closure", len(params), *flat)

    def s_ClassDef(self, s):
        self.st.env[s.name] = one(mk("localclass", s.name, ast.dump(
            ast.Module(body=strip_doc(s), type_ignores=[]))))

    def s_With(self, s):
        for it in s.items:
            v = self.expr(it.context_expr)
            t = self.term(v)
            self.event(mk("with", t))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, one(mk("enter", t)))
        self.block(s.body)

    def exc_names(self, h):
        """Resolved class names a handler catches."""
        if h.type is None:
            return ["BaseException"]
        el = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in el:
            sym = self.static(e)
            out.append(sym.qual if sym is not None else ast.dump(e))
        return out

    def tested(self, h, hn):
        """Subclasses of what it catches that a handler asks about."""
        out = set()
        for x in ast.walk(h) if h.name else ():
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
                    and x.func.id == "isinstance" and len(x.args) == 2
                    and isinstance(x.args[0], ast.Name)
                    and x.args[0].id == h.name):
                continue
            el = x.args[1].elts if isinstance(x.args[1], ast.Tuple) else \
                [x.args[1]]
            for e in el:
                sym = self.static(e)
                q = sym.qual if sym is not None else None
                if q and any(self.is_subclass(q, b) for b in hn):
                    out.add(q)
        return out

    def is_subclass(self, cls, base):
        if cls == base or base in ("BaseException", "Exception"):
            return True
        c = self.tree.get_class(cls)
        if c is not None:
            anc = self.tree.ancestors(c)
            if base in anc:
                return True
            if base.startswith("builtins."):
                base = base[9:]
            for a in anc:
                if self.py_sub(a, base):
                    return True
            return False
        return self.py_sub(cls, base)

    @staticmethod
    def py_sub(a, b):
        x, y = getattr(_bi, a, None), getattr(_bi, b, None)
        return isinstance(x, type) and isinstance(y, type) and \
            issubclass(x, y)

    def s_Try(self, s):
        pre = self.st.copy()
        n_ab = len(self.aborts)
        n_ev = len(self.events)
        n_fl = len(self.faults)
        l0 = len(self.log)
        n_rt = len(self.frames[-1].returns)
        self.block(s.body)
        caught = {n.rpartition(".")[2] for h in s.handlers
                  for n in self.exc_names(h)}
        self.faults[n_fl:] = [f for f in self.faults[n_fl:]
                              if not faults.caught(f[0], caught)]
        l1 = l2 = len(self.log)
        body_end = self.st
        body_live = body_end.live
        n_re = len(self.frames[-1].returns)
        inner = self.aborts[n_ab:]
        names = sorted({e.args[0] if isinstance(e.args[0], str)
                        else e.op for _, e in self.events[n_ev:]
                        if e.op in ("call", "ext", "m", "dyn")})
        # which exception it is: disjoint conditions, most specific class
        # first, in an order that does not depend on that of the handlers
        catches = [(h, self.exc_names(h)) for h in s.handlers]
        kinds = {n for _, hn in catches for n in hn}
        for h, hn in catches:
            kinds |= self.tested(h, hn)
        kinds = sorted(kinds)
        kinds.sort(key=lambda n: -sum(self.is_subclass(n, b) for b in kinds))
        raised = {}
        none = TRUE
        for n in kinds:
            a = var(mk("caught", n, "|".join(names)))
            raised[n] = band(none, a)
            none = band(none, bnot(a))
        del self.aborts[n_ab:]
        results = []
        fr = self.frames[-1]
        caught_live = FALSE
        for n in kinds:
            h = next(h for h, hn in catches
                     if any(self.is_subclass(n, b) for b in hn))
            expl = FALSE
            rest = []
            for g, c in inner:
                if self.is_subclass(c, n):
                    expl = bor(expl, g)
                else:
                    rest.append((g, c))
            inner = rest
            g = band(pre.live, bor(raised[n], band(expl, none)))
            g = band(g, bnot(caught_live))
            caught_live = bor(caught_live, g)
            # handler state: values possibly updated by the body
            st = pre.copy()
            st.live = g
            ends = [(x[0], x[2]) for x in fr.returns[n_rt:n_re]
                    if x[0] is not FALSE]
            if ends:
                if body_live is not FALSE:
                    ends.append((body_live, body_end.heap))
                ll = FALSE
                for x, _ in ends:
                    ll = bor(ll, x)
                heap = self.merge_heaps([(constrain(x, ll), h)
                                         for x, h in ends], ll)
            else:
                heap, ll = body_end.heap, body_live

            def upto(v):
                # what the body leaves where it completes
                if ll is not FALSE and len(v) > 1:
                    v = gnorm([(constrain(g, ll), t) for g, t in v], TRUE)
                return one(mk("partial", self.term1(v)))
            for k, v in heap.items():
                if pre.heap.get(k) != v:
                    st.heap[k] = upto(v)
            for k, v in body_end.env.items():
                if pre.env.get(k) != v:
                    st.env[k] = upto(v)
            if h.name:
                st.env[h.name] = one(mk("exc", n))
            self.st = st
            fr.handling.append(n)
            self.block(h.body)
            fr.handling.pop()
            results.append(self.st)
        self.aborts.extend(inner)
        # what comes after the last statement that can raise is skipped
        # when an exception is caught (log entries serve the path rules)
        for i in range(l1 - 1, l0 - 1, -1):
            if self.log[i][0] in ("raise", "call", "ext"):
                l1 = i
                break
        for i in range(l1, l2):
            x = self.log[i]
            self.log[i] = (x[0], band(x[1], bnot(caught_live))) + x[2:]
        body_end.live = band(body_end.live, bnot(caught_live))
        for i in range(n_rt, n_re):
            x = fr.returns[i]
            fr.returns[i] = (band(x[0], bnot(caught_live)),) + x[1:]
        if s.orelse and body_end.live is not FALSE:
            # not covered by the handlers
            self.st = body_end
            self.block(s.orelse)
            body_end = self.st
        m = self.merge_many([body_end] + results)
        if m is None:
            body_end.live = FALSE
            m = body_end
        self.st = m
        if s.finalbody:
            if self.st.live is FALSE:
                self.st = pre.copy()
                self.block(s.finalbody)
                self.st.live = FALSE
            else:
                self.block(s.finalbody)

    s_TryStar = s_Try

    def term1(self, gv):
        if len(gv) == 1:
            return gv[0][1]
        flat = []
        for g, t in gv:
            flat += [g, t]
        return mk("gv", *flat)

    # ---------------------------------------------------------------- loops
    def s_While(self, s):
        d = self.desugar_while(s)
        if d is not None:
            loop, bound, check = d
            nm = loop.target.id
            i0 = self.st.env.get(nm)

            def after():
                if not any(isinstance(x, ast.Break) for b in loop.body
                           for x in ast.walk(b)) and i0 is not None and \
                        self.st.live is not FALSE:
                    self.st.env[nm] = self.lift(
                        lambda a, b: tm.minmax("max", [a, b]), i0,
                        self.expr(bound))
            if not check:
                self.stmt(loop)
                after()
                return
            sv = (self.st.copy(), len(self.aborts), len(self.events),
                  len(self.log), len(self.unsup), len(
                      self.frames[-1].returns))
            self.bound_ok = True
            self.s_For(loop, bound)
            if self.bound_ok:
                after()
                return
            self.bound_ok = True
            self.st = sv[0]
            del self.aborts[sv[1]:], self.events[sv[2]:], self.log[sv[3]:]
            del self.unsup[sv[4]:], self.frames[-1].returns[sv[5]:]
        brk = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test),
                     body=[ast.Break()], orelse=[])
        ast.copy_location(brk, s)
        body = s.body
        if not (isinstance(s.test, ast.Constant) and s.test.value):
            body = [brk] + s.body
        for n in ast.walk(brk):
            if not hasattr(n, "lineno"):
                n.lineno = s.lineno
                n.col_offset = 0
        self.run_loop(mk("forever"), None, body, s.orelse)

    def desugar_while(self, s):
        """while i < n: ...; i += 1   ==>   for i in range(i, n)"""
        t = s.test
        if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        l, r, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, (ast.Gt,)):
            l, r = r, l
        elif not isinstance(op, (ast.Lt, ast.NotEq)):
            return None
        if not isinstance(l, ast.Name) or len(s.body) < 1:
            return None
        last = s.body[-1]
        name = l.id
        ok = False
        if isinstance(last, ast.AugAssign) and isinstance(
                last.target, ast.Name) and last.target.id == name and \
                isinstance(last.op, ast.Add) and self.is_one(last.value):
            ok = True
        if isinstance(last, ast.Assign) and len(last.targets) == 1 and \
                isinstance(last.targets[0], ast.Name) and \
                last.targets[0].id == name and \
                isinstance(last.value, ast.BinOp) and \
                isinstance(last.value.op, ast.Add):
            a, b = last.value.left, last.value.right
            if isinstance(b, ast.Name) and b.id == name:
                a, b = b, a
            ok = isinstance(a, ast.Name) and a.id == name and self.is_one(b)
        if not ok:
            return None
        stored = set()
        for st in s.body[:-1]:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    stored.add(x.id)
                if isinstance(x, ast.Continue):
                    return None
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in MUTATORS \
                        and isinstance(x.func.value, ast.Name):
                    stored.add(x.func.value.id)
        if name in stored:
            return None
        check = False
        for x in ast.walk(r):
            if isinstance(x, ast.Name) and x.id in stored | {name}:
                return None
            if isinstance(x, (ast.Attribute, ast.Subscript)):
                # bound read through an object that the body may change
                check = True
            if isinstance(x, ast.Call) and not (
                    isinstance(x.func, ast.Name)
                    and x.func.id in ("len", "ulen", "Uint", "int", "U256")):
                return None
        if isinstance(op, ast.NotEq):
            cur = self.st.env.get(name)
            if cur is None or cur != one(ZERO):
                return None
        loop = ast.For(target=ast.Name(id=name, ctx=ast.Store()),
                       iter=ast.Call(func=ast.Name(id="range",
                                                   ctx=ast.Load()),
                                     args=[ast.Name(id=name, ctx=ast.Load()),
                                           r], keywords=[]),
                       body=s.body[:-1] or [ast.Pass()], orelse=[])
        ast.copy_location(loop, s)
        ast.fix_missing_locations(loop)
        return loop, r, check

    def is_one(self, e):
        if isinstance(e, ast.Call) and len(e.args) == 1:
            s = self.static(e.func)
            if s is None or s.qual not in IDENT:
                return False
            e = e.args[0]
        return isinstance(e, ast.Constant) and e.value == 1 and \
            not isinstance(e.value, bool)

    def domain(self, it):
        """Iteration domain of a `for`: (dom term, binder(idx)->gv) or a
        literal tuple to unroll."""
        if isinstance(it, ast.Call):
            f = it.func
            nm = f.id if isinstance(f, ast.Name) and f.id not in \
                self.st.env else None
            if nm == "range" and not it.keywords:
                args = [self.term(self.expr(a)) for a in it.args]
                lo, hi, stp = ZERO, None, ONE
                if len(args) == 1:
                    hi = args[0]
                else:
                    lo, hi = args[0], args[1]
                    if len(args) == 3:
                        stp = args[2]
                n = tm.sub(hi, lo)
                if stp.op == "int" and stp.args[0] < 0:
                    n = tm.sub(lo, hi)
                    k = -stp.args[0]
                    if k != 1:
                        n = tm.floordiv(tm.add(n, Int(k - 1)), Int(k))
                elif stp is not ONE:
                    n = tm.floordiv(tm.sub(tm.add(n, stp), ONE), stp)
                return n, lambda i: one(tm.add(lo, tm.mul(stp, i)))
            if nm == "enumerate" and it.args:
                n, b = self.domain(it.args[0])
                start = ZERO
                if len(it.args) > 1:
                    start = self.term(self.expr(it.args[1]))
                for kw in it.keywords:
                    start = self.term(self.expr(kw.value))
                return n, lambda i: self.lift(
                    lambda x: mk("tuple", tm.add(start, i), x), b(i))
            if nm == "zip" and it.args:
                ds = [self.domain(a) for a in it.args
                      if not isinstance(a, ast.Starred)]
                if len(ds) == len(it.args):
                    n = tm.minmax("min", [d[0] for d in ds])
                    return n, lambda i: self.lift(
                        lambda *xs: mk("tuple", *xs),
                        *[d[1](i) for d in ds])
            if nm == "map" and len(it.args) == 2 and not it.keywords and \
                    isinstance(it.args[0], (ast.Name, ast.Attribute,
                                            ast.Lambda)):
                n, b = self.domain(it.args[1])

                def apply(i):
                    v = "@map%d" % it.args[0].col_offset
                    old = self.st.env.get(v)
                    self.st.env[v] = b(i)
                    r = self.expr(ast.copy_location(ast.Call(
                        func=it.args[0], args=[ast.copy_location(ast.Name(
                            id=v, ctx=ast.Load()), it)], keywords=[]), it))
                    if old is None:
                        self.st.env.pop(v, None)
                    else:
                        self.st.env[v] = old
                    return r
                return n, apply
            if nm == "reversed" and len(it.args) == 1:
                xs = self.content(self.expr(it.args[0]))
                n = self.term(self.lift(tm.tlen, xs))
                return n, lambda i: self.lift(lambda x: self.index(
                    x, tm.sub(tm.sub(n, ONE), i)), xs)
            if nm in ("list", "tuple", "iter") and len(it.args) == 1 and \
                    not it.keywords:
                return self.domain(it.args[0])
            if isinstance(f, ast.Attribute) and f.attr in (
                    "items", "keys", "values") and not it.args and \
                    self.static(f) is None:
                xs = self.content(self.expr(f.value))
                xs = self.lift(tm.uncopy, xs)
                n = self.term(self.lift(lambda x: mk("len", x), xs))

                def bi(x, i):
                    k = self.elem(x, i)
                    if f.attr == "keys":
                        return k
                    if f.attr == "values":
                        return self.index(x, k)
                    return mk("tuple", k, self.index(x, k))
                return n, lambda i: self.lift(lambda x: bi(x, i), xs)
            r = self.domain_of_helper(it)
            if r is not None:
                return r
        xs = self.lift(tm.uncopy, self.content(self.expr(it)))
        if len(xs) == 1 and xs[0][1].op == "m" and len(xs[0][1].args) == 2 \
                and xs[0][1].args[0] in ("items", "keys", "values"):
            what, x = xs[0][1].args

            def view(i):
                k = self.elem(x, i)
                if what == "keys":
                    return one(k)
                if what == "values":
                    return one(self.index(x, k))
                return one(mk("tuple", k, self.index(x, k)))
            return mk("len", x), view
        return self.term(self.lift(tm.tlen, xs)), lambda i: self.lift(
            lambda x: self.elem(x, i), xs)

    def domain_of_helper(self, it):
        """`for x in helper(..)` where the helper just returns an iterator."""
        s = self.static(it.func) if isinstance(
            it.func, (ast.Name, ast.Attribute)) else None
        if s is None or s.kind != "func" or s.qual in self.boundary or \
                s.qual in self.stack or (
                    isinstance(it.func, ast.Name)
                    and it.func.id in self.st.env):
            return None
        fn = s.node
        b = strip_doc(fn.node)
        if len(b) != 1 or not isinstance(b[0], ast.Return) or \
                not isinstance(b[0].value, ast.Call) or fn.cls is not None:
            return None
        vals, pos, kwonly, extra, extrakw, unknown = self.bind_args(fn, it)
        if unknown or extra or extrakw or any(p not in vals for p in pos):
            return None
        sv = self.st.env
        self.frames.append(Frame(fn, fn.mod, None))
        self.stack.append(fn.qual)
        self.st.env = dict(vals)
        try:
            return self.domain(b[0].value)
        finally:
            self.frames.pop()
            self.stack.pop()
            self.st.env = sv

    def elem(self, x, i):
        x = tm.uncopy(x)
        if x.op in ("set", "toset", "setadd", "dict"):
            return mk("key", x, i)
        return self.index(x, i)

    def pieces(self, it):
        """Parts of a concatenation that is looped over, one after another."""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                and it.func.attr == "chain" and not it.keywords:
            s = self.static(it.func)
            if s is not None and s.qual == "itertools.chain":
                it = ast.copy_location(ast.Tuple(
                    elts=[ast.copy_location(ast.Starred(
                        value=a, ctx=ast.Load()), a) for a in it.args],
                    ctx=ast.Load()), it)
        if not isinstance(it, (ast.BinOp, ast.Tuple, ast.List, ast.Name)):
            return None
        if isinstance(it, ast.Name) and not any(
                x.op == "concat" for _, x in self.st.env.get(it.id, ())):
            return None
        if isinstance(it, ast.BinOp) and not isinstance(it.op, ast.Add):
            return None
        xs = self.content(self.expr(it))
        if len(xs) != 1 or xs[0][1].op != "concat":
            return None
        ps = xs[0][1].args
        if len(ps) > 4 or any(p.op in ("bytes", "str") for p in ps) or sum(
                len(p.args) for p in ps if p.op == "tuple") > 4:
            return None
        return ps

    def s_For(self, s, bound=None):
        it = s.iter
        # unroll literal sequences
        if isinstance(it, (ast.Tuple, ast.List)) and len(it.elts) <= 8 and \
                not any(isinstance(e, ast.Starred) for e in it.elts) and \
                not leaves(s.body) and not s.orelse:
            vals = [self.expr(e) for e in it.elts]
            for v in vals:
                self.assign(s.target, v)
                self.block(s.body)
            return
        parts = self.pieces(it) if bound is None and not s.orelse and \
            not leaves(s.body) else None
        if parts is not None:
            for p in parts:
                if p.op == "tuple":
                    for y in p.args:
                        if self.st.live is FALSE:
                            return
                        self.assign(s.target, one(y))
                        self.block(s.body)
                elif self.st.live is not FALSE:
                    self.run_loop(tm.tlen(p), lambda i: self.assign(
                        s.target, one(self.elem(p, i))), s.body, [])
            return
        dom, bind = self.domain(it)
        if self.st.live is FALSE:
            return
        if dom.op == "int" and dom.args[0] == 0:
            return
        if dom.op == "int" and dom.args[0] <= 4 and not s.orelse and \
                bound is None and not leaves(s.body):
            for j in range(dom.args[0]):
                if self.st.live is FALSE:
                    return
                self.assign(s.target, bind(Int(j)))
                self.block(s.body)
            return
        if bound is None:
            body = s.body
        else:
            def body():
                before = self.term(self.expr(bound))
                self.block(s.body)
                if self.st.live is not FALSE and \
                        self.term(self.expr(bound)) is not before:
                    self.bound_ok = False
        self.run_loop(dom, lambda idx: self.assign(s.target, bind(idx)),
                      body, s.orelse)

    def run_loop(self, dom, bind, body, orelse):
        if isinstance(body, list):
            def do_body():
                self.block(body)
        else:
            do_body = body
        depth = self.depth
        st0 = self.st
        live0 = st0.live
        idx = mk("idx", depth)
        fr = self.frames[-1] if self.frames else None
        n_faults = len(self.faults), self.n_faults

        def once(colours, placeholder=True):
            del self.faults[n_faults[0]:]
            self.n_faults = n_faults[1]
            st = State(dict(st0.env), dict(st0.heap), TRUE)
            for k, col in colours.items():
                ph = one(self.lv(depth, col, k, st0))
                if k[0] == "e":
                    st.env[k[1]] = ph
                else:
                    st.heap[k[1]] = ph
            sv = (self.st, self.events, self.aborts, self.loops,
                  self.depth, fr.returns if fr else None, self.log,
                  self.unsup)
            self.st, self.events, self.aborts = st, [], []
            self.loops = self.loops + [{"breaks": [], "conts": []}]
            self.depth = depth + 1
            self.log = []
            self.unsup = []
            if fr:
                fr.returns = []
            self.outer.append(live0)
            self.facts.append(tm.sub(tm.sub(dom, ONE), idx)
                              if dom.op not in ("forever", "until") else None)
            try:
                if bind is not None:
                    bind(idx)
                do_body()
                lp = self.loops[-1]
                end = self.merge_many(lp["conts"] + [self.st])
                res = (end, lp["breaks"], self.events, self.aborts,
                       fr.returns if fr else [], self.log, self.unsup)
            finally:
                self.outer.pop()
                self.facts.pop()
                (self.st, self.events, self.aborts, self.loops, self.depth,
                 rets, self.log, self.unsup) = sv
                if fr:
                    fr.returns = rets
            return res

        def changed(res, colours):
            end, brks = res[0], res[1]
            ks = set()
            for s in ([end] if end is not None else []) + brks:
                for n, v in s.env.items():
                    if n in st0.env and st0.env[n] != v:
                        ks.add(("e", n))
                for k, v in s.heap.items():
                    if st0.heap.get(k) != v:
                        ks.add(("h", k))
            for r in res[4]:
                for k, v in r[2].items():
                    if st0.heap.get(k) != v:
                        ks.add(("h", k))
            return ks

        def init_of(k):
            if k[0] == "e":
                return self.term(st0.env[k[1]])
            v = st0.heap.get(k[1])
            if v is None:
                v = self.initial(k[1], st0.heap)
            return self.term(v)

        def upd_of(res, k):
            """Update value (term) along the back edge / breaks."""
            sts = ([res[0]] if res[0] is not None else []) + res[1]
            if not sts:
                return mk("dead")
            m = self.merge_many(sts) or sts[0]
            if k[0] == "e":
                v = m.env.get(k[1]) or one(mk("undef"))
            else:
                v = m.heap.get(k[1])
                if v is None:
                    v = self.initial(k[1], m.heap)
            return v

        res = once({})
        fresh = set()
        for x in ([res[0]] if res[0] is not None else []) + res[1]:
            fresh |= {n for n in x.env if n not in st0.env
                      and not n.startswith("@")}
        if fresh:
            for n in fresh:
                st0.env[n] = one(mk("undef"))
            res = once({})
        keys = changed(res, {})
        colours = {}
        inits = {}
        for _ in range(10):
            inits = {k: init_of(k) for k in keys}
            colours = {k: inits[k].dig.hex() for k in keys}
            res = once(colours)
            more = changed(res, colours) - keys
            # placeholders always differ from st0; only new keys matter
            if not more:
                break
            keys |= more
        for k in keys:
            if k not in inits:
                inits[k] = init_of(k)
                colours[k] = inits[k].dig.hex()
        if keys:
            sv = self.st
            for _ in range(2):
                nc = {}
                for k in keys:
                    u = upd_of(res, k)
                    self.st = State({}, {}, TRUE)
                    nc[k] = mk("col", inits[k], self.term(u)).dig.hex()
                self.st = sv
                colours = nc
                res = once(colours)
        end, brks, events, aborts, returns, log, unsup = res
        self.log.extend(log)
        self.unsup.extend(unsup)
        # --- fold back into the enclosing state
        st = st0
        self.st = st
        sub = State({}, {}, TRUE)

        def gterm(g):
            return g

        for e in log:
            pass
        base_dom = dom
        if brks:
            bc = FALSE
            for b in brks:
                bc = bor(bc, b.live)
            dom = mk("until", dom, bc)
        nonempty = TRUE
        if base_dom.op != "forever":
            nonempty = tm.gt0(base_dom) if base_dom.op != "len" else \
                bnot(tm.eq0(base_dom))

        def quant(g):
            if g is FALSE:
                return FALSE
            if base_dom.op != "forever" and not self.mentions(g, depth):
                return band(nonempty, g)
            return var(mk("exists", dom if brks else base_dom, g))
        for g, e in events:
            if e.op == "each" and False:
                pass
            if not self.mentions(mk("x", g, e), depth) and not brks and \
                    base_dom.op != "forever":
                self.event(e, band(nonempty, g))
            else:
                self.event(mk("each", dom, g, e))
        dead = FALSE
        bycls = {}
        for g, c in aborts:
            bycls[c] = bor(bycls.get(c, FALSE), g)
        for c, g in bycls.items():
            self.aborts.append((band(live0, quant(g)), c))
            dead = bor(dead, quant(g))
        ret_E = FALSE
        if returns:
            rg = FALSE
            for g, v, h in returns:
                rg = bor(rg, g)
            ret_E = quant(rg)
        # carried values
        newvals = {}
        for k in keys:
            u = upd_of(res, k)
            newvals[k] = self.loop_value(base_dom, dom, depth, init_of(k),
                                         self.lv(depth, colours[k], k, st0),
                                         u, bool(brks))
        # temporaries first bound inside
        temps = {}
        if end is not None:
            for n, v in end.env.items():
                if n not in st0.env:
                    sv = self.st
                    self.st = sub
                    temps[n] = one(mk("loopout", dom, mk("undef"),
                                      self.term(v)))
                    self.st = sv
        for k, v in newvals.items():
            if k[0] == "e":
                st.env[k[1]] = v
            else:
                st.heap[k[1]] = v
        for n, v in temps.items():
            st.env[n] = v
        if returns:
            G = FALSE
            for g, v, h in returns:
                G = bor(G, g)
            self.st = State({}, {}, G)
            tv = self.term(gnorm([(band(g, c), t) for g, v, h in returns
                                  for c, t in v], G))
            self.st = st
            if self.mentions(tv, depth):
                tv = mk("at", dom, G, tv)
            fr.returns.append((band(band(live0, ret_E), bnot(dead)),
                               one(tv), dict(st.heap)))
        st.live = band(live0, bnot(bor(dead, ret_E)))
        if base_dom.op == "forever" and not brks:
            st.live = FALSE
        if orelse:
            if brks:
                bc = FALSE
                for b in brks:
                    bc = bor(bc, b.live)
                E = var(mk("exists", base_dom, bc))
                self.branch(E, lambda: None, lambda: self.block(orelse))
            else:
                self.block(orelse)

    def lv(self, depth, col, k, st0):
        t = mk("lv", depth, col)
        if k[0] == "e":
            i = st0.env.get(k[1])
        else:
            i = st0.heap.get(k[1]) or self.initial(k[1], st0.heap)
        if i and any(self.is_value(x) for _, x in i):
            self.value_lv.add(t)
        if t.kind_ is None:
            if i and len(i) == 1:
                kk = self.k(i[0][1])
                if kk in ("int", "seq"):
                    t.kind_ = kk
        return t

    _ment = {}

    def mentions(self, t, depth):
        """Does t mention idx/lv of loop depth >= `depth`?"""
        key = (t, depth)
        r = self._ment.get(key)
        if r is None:
            r = False
            if t.op in ("idx", "lv") and t.args[0] >= depth:
                r = True
            else:
                for a in t.args:
                    if isinstance(a, T) and self.mentions(a, depth):
                        r = True
                        break
            self._ment[key] = r
        return r

    def loop_value(self, base_dom, dom, depth, init, own, upd, has_break):
        sv = self.st
        self.st = State({}, {}, TRUE)
        try:
            alts = self.prune(upd)
            flat = []
            for g, t in alts:
                if t.op == "gv":
                    for i in range(0, len(t.args), 2):
                        flat.append((band(g, t.args[i]), t.args[i + 1]))
                else:
                    flat.append((g, t))
            alts = [(g, t) for g, t in flat if g is not FALSE]
            if all(t is own for g, t in alts):
                return one(init)
            D = dom

            def free(t):
                return not contains_term(t, own)
            # boolean / constant latch
            consts = [(g, t) for g, t in alts if t is not own]
            if len(consts) == 1 and free(consts[0][1]) and \
                    not self.mentions(consts[0][1], depth) and \
                    free(consts[0][0]):
                g, t = consts[0]
                if g is TRUE or not contains_lv(g, depth):
                    E = var(mk("exists", base_dom, g)) if g is not TRUE \
                        else (bnot(tm.eq0(base_dom))
                              if base_dom.op != "forever" else TRUE)
                    self.st = sv
                    return gnorm([(E, t), (bnot(E), init)])
            if is_bool(init) and len(alts) == 1 and is_bool(alts[0][1]):
                # x = x or g(...)  /  x = x and g
                b = alts[0][1]
                ownv = truth(own)
                if ownv.op == "B":
                    v = ownv.args[0]
                    hi = tm.restrict(b, v, ownv.args[2] is TRUE)
                    lo = tm.restrict(b, v, ownv.args[2] is not TRUE)
                    if hi is TRUE and not contains_lv(lo, depth):
                        return one(bor(init, var(mk("exists", base_dom,
                                                    lo))))
                    if lo is FALSE and not contains_lv(hi, depth):
                        return one(band(init, bnot(var(mk(
                            "exists", base_dom, bnot(hi))))))
            # additive
            if own.kind_ != "seq":
                deltas = []
                ok = True
                for g, t in alts:
                    if t.op in ("min", "max"):
                        d = tm.minmax(t.op, [tm.sub(x, own) for x in t.args])
                    else:
                        d = tm.sub(t, own)
                    if not free(d) or t.op in tm.SEQ_OPS or t.op in (
                            "setadd", "upd", "post", "none"):
                        ok = False
                        break
                    deltas.append((g, d))
                if ok and (own.kind_ == "int" or all(
                        kind(d) == "int" or d.op == "int" or
                        t.op in ("poly", "min", "max") for (g, d), (_, t)
                        in zip(deltas, alts))) and free(
                            mk("x", *[g for g, _ in deltas])):
                    dt = self.term(gnorm(deltas))
                    if not self.mentions(dt, depth) and not has_break \
                            and base_dom.op != "forever":
                        return one(tm.add(init, tm.mul(base_dom, dt)))
                    return one(tm.add(init, mk("sum", D, dt)))
            # sequence building
            ok = True
            parts = []
            for g, t in alts:
                if t is own:
                    parts.append((g, mk("tuple")))
                elif t.op == "concat" and t.args[0] is own and all(
                        free(x) for x in t.args[1:]):
                    parts.append((g, tm.concat(*t.args[1:])))
                else:
                    ok = False
                    break
            if ok and parts and free(mk("x", *[g for g, _ in parts])):
                pt = self.term(gnorm(parts))
                return one(tm.concat(init, mk("map", D, pt)))
            ok = True
            parts = []
            for g, t in alts:
                if t is own:
                    parts.append((g, mk("tuple")))
                elif t.op == "setadd" and t.args[0] is own and all(
                        free(x) for x in t.args[1:]):
                    parts.append((g, mk("tuple", *t.args[1:])))
                else:
                    ok = False
                    break
            if ok and parts and free(mk("x", *[g for g, _ in parts])):
                return one(tm.union(init, mk(
                    "map", D, self.term(gnorm(parts)))))
            ok = True
            parts = []
            for g, t in alts:
                if t is own:
                    parts.append((g, mk("tuple")))
                elif t.op == "upd" and t.args[0] == "set" and \
                        len(t.args) == 4 and t.args[1] is own and all(
                            free(x) for x in t.args[2:]):
                    parts.append((g, mk("tuple", mk("tuple", *t.args[2:]))))
                else:
                    ok = False
                    break
            if ok and parts and init.op == "dict" and not init.args and \
                    free(mk("x", *[g for g, _ in parts])):
                return one(mk("todict", mk("map", D, self.term(
                    gnorm(parts)))))
            r = self.filled(base_dom, D, depth, init, own, alts, has_break)
            if r is not None:
                return one(r)
            return one(mk("loopout", D, init, self.term(gnorm(alts))))
        finally:
            self.st = sv

    def filled(self, base_dom, dom, depth, init, own, alts, has_break):
        """`k` slots per round of a preallocated sequence, all of them set."""
        if has_break or base_dom is not dom or len(alts) != 1 or \
                alts[0][0] is not TRUE or base_dom.op == "forever":
            return None
        vals = {}
        t = alts[0][1]
        while t.op == "upd" and t.args[0] == "set" and len(t.args) == 4:
            vals.setdefault(t.args[2], t.args[3])
            t = t.args[1]
        if t is not own or not vals:
            return None
        k = len(vals)
        i = mk("idx", depth)
        slots = []
        for j in range(k):
            p = tm.add(tm.mul(Int(k), i), Int(j))
            if p not in vals or contains_term(vals[p], own):
                return None
            slots.append(vals[p])
        if tm.tlen(init) is not tm.mul(Int(k), base_dom):
            return None
        return mk("map", dom, mk("tuple", *slots))

    # ---------------------------------------------------------- conditions
    def cond(self, e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return bnot(self.cond(e.operand))
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = self.cond(e.values[0])
            for v in e.values[1:]:
                if not has_call(v):
                    # effect free: narrow liveness only
                    base = self.st.live
                    self.st.live = band(base, acc if isand else bnot(acc))
                    if self.st.live is FALSE:
                        self.st.live = base
                        continue
                    c = self.cond(v)
                    self.st.live = base
                else:
                    box = []
                    take = acc if isand else bnot(acc)
                    if band(self.st.live, take) is FALSE:
                        continue
                    self.branch(take, lambda: box.append(self.cond(v)),
                                lambda: None)
                    c = box[0]
                acc = band(acc, c) if isand else bor(acc, c)
            return acc
        if isinstance(e, ast.Compare):
            return self.compare(e)
        return self.cond_of(self.content(self.expr(e)))

    def compare(self, e):
        left = self.expr(e.left)
        acc = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            acc = band(acc, self.cmp1(op, left, right))
            left = right
        return acc

    def cmp1(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            pass
        else:
            a, b = self.content(a), self.content(b)
        r = FALSE
        for g, (x, y) in self.combos([a, b]):
            r = bor(r, band(g, self.cmp_t(op, x, y)))
        return r

    def cmp_t(self, op, x, y):
        if isinstance(op, ast.Eq):
            return self.eq(x, y)
        if isinstance(op, ast.NotEq):
            return bnot(self.eq(x, y))
        if isinstance(op, ast.Lt):
            return tm.lt(x, y)
        if isinstance(op, ast.Gt):
            return tm.lt(y, x)
        if isinstance(op, ast.LtE):
            return tm.le(x, y)
        if isinstance(op, ast.GtE):
            return tm.le(y, x)
        if isinstance(op, ast.In):
            return tm.contains(x, y)
        if isinstance(op, ast.NotIn):
            return bnot(tm.contains(x, y))
        if isinstance(op, ast.Is):
            return self.eq(x, y)
        return bnot(self.eq(x, y))

    def eq(self, x, y):
        pk = self.pkinds if hasattr(self, "pkinds") else {}
        if pk.get(x) == "seq" or pk.get(y) == "seq":
            if x is y:
                return TRUE
            for a, b in ((x, y), (y, x)):
                if (a.op in ("bytes", "str") and not a.args[0]) or (
                        a.op in ("tuple", "dict", "set") and not a.args):
                    return tm.eq(a, b)
            if x.op not in ("none",) and y.op != "none":
                a, b = sorted((x, y))
                return var(mk("eq", a, b))
        return tm.eq(x, y)

    # --------------------------------------------------------- expressions
    def expr(self, e, stmt=False):
        self.steps += 1
        if isinstance(e, ast.Call):
            return self.e_Call(e, stmt)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported(e, type(e).__name__)
            return one(mk("unsup", ast.dump(e)))
        return m(e)

    # ------------------------------------------------- implicit exceptions
    def ty(self, e):
        """Class of an expression of the function being evaluated."""
        for fr in reversed(self.frames):
            if fr.fn is None:
                return None
            if fr.fn.qual.startswith("closure."):
                continue
            return self.nt.of(fr.fn).get(id(e))
        return None

    def numty(self, e):
        t = self.ty(e)
        return t[1] if t is not None and t[0] == "num" else None

    def bounded(self, e, gv):
        """The value of `e` has its class: remember the bound."""
        n = self.numty(e)
        b = BITS.get(n)
        if b is not None:
            m = (1 << b) - 1
            for _, t in gv:
                if t.op != "int" and self.bounds.get(t, m + 1) > m:
                    self.bounds[t] = m
        return n

    def fault(self, exc, what, node, cond, g=TRUE):
        """`node` raises `exc` where `cond` holds; keep it unless refuted."""
        if cond is FALSE or self.st.live is FALSE:
            return
        self.n_faults += 1
        if self.loops:
            self.loop_faults.add((exc, what))
        live = band(self.st.live, g)
        for o in self.outer:
            live = band(live, o)
        if live is FALSE or band(live, cond) is FALSE:
            return
        if faults.refuted(live, cond, [f for f in self.facts
                                       if f is not None], self.bounds):
            return
        self.faults.append((exc, what, node, cond,
                            self.tags[-1] if self.tags else None))

    def arith_faults(self, node, op, ta, tb, a, b):
        """Implicit exceptions of the operation `a op b`."""
        if type(op) in (ast.FloorDiv, ast.Mod):
            if isinstance(op, ast.Mod) and ta not in UNSIGNED and \
                    ta != "int":
                return
            if ta is None:
                return
            for g, y in self.prune(b):
                self.fault("ZeroDivisionError", "division", node,
                           tm.eq0(y), g)
            return
        if ta in UNSIGNED and tb is not None and ta != tb:
            self.fault("TypeError", f"{ta} and {tb}", node, TRUE)
            return
        if ta == "int" and tb in UNSIGNED:
            self.fault("TypeError", f"{ta} and {tb}", node, TRUE)
            return
        if ta not in UNSIGNED:
            return
        if isinstance(op, ast.Sub):
            for g, (x, y) in self.combos([self.prune(a), self.prune(b)]):
                self.fault("OverflowError", "subtraction", node,
                           tm.lt(x, y), g)
        elif isinstance(op, (ast.Add, ast.Mult)) and ta in BITS:
            f = tm.add if isinstance(op, ast.Add) else tm.mul
            for g, (x, y) in self.combos([self.prune(a), self.prune(b)]):
                self.fault("OverflowError", f"{ta} result", node,
                           tm.gt0(tm.sub(f(x, y), Int((1 << BITS[ta]) - 1))),
                           g)

    def ctor_faults(self, node, cls, arg, v):
        """Implicit exceptions of `cls(arg)` for a number class."""
        t = self.numty(arg)
        if t is None or t == cls:
            return
        signed = t not in UNSIGNED
        for g, x in self.prune(v):
            if is_bool(x) or x.op in ("bytes", "str"):
                continue
            if signed:
                self.fault("OverflowError", "negative value", node,
                           tm.gt0(tm.sub(ZERO, x)), g)
            b = BITS.get(cls)
            if b is not None and not (t in BITS and BITS[t] <= b):
                self.fault("OverflowError", f"{cls} value", node,
                           tm.gt0(tm.sub(x, Int((1 << b) - 1))), g)

    def index_faults(self, node, b, i):
        t = self.ty(node.value)
        if t is None:
            return
        if t[0] in ("list", "bytes", "str"):
            for g, (x, k) in self.combos([self.prune(b), self.prune(i)]):
                if k.op == "int" and k.args[0] < 0:
                    c = tm.lt(tm.tlen(x), Int(-k.args[0]))
                else:
                    c = tm.le(tm.tlen(x), k)
                self.fault("IndexError", "index", node, c, g)
        elif t[0] == "dict":
            for g, (x, k) in self.combos([self.prune(b), self.prune(i)]):
                if k.op == "key" and k.args[0] is x:
                    continue
                if x.op == "upd" and x.args[0] == "set" and \
                        x.args[2] is k:
                    continue
                self.fault("KeyError", "key", node,
                           bnot(tm.contains(k, x)), g)

    def e_Constant(self, e):
        v = e.value
        if v is None or v is Ellipsis:
            return one(NONE if v is None else mk("ellipsis"))
        if isinstance(v, bool):
            return one(Bool(v))
        if isinstance(v, int):
            return one(Int(v))
        if isinstance(v, bytes):
            return one(Bytes(v))
        if isinstance(v, str):
            return one(Str(v))
        return one(mk("float", repr(v)))

    def e_Name(self, e):
        v = self.st.env.get(e.id)
        if v is not None:
            if len(v) == 1 and v[0][1].op == "closure":
                # free names are looked up when the function runs
                t = v[0][1]
                k = (t, id(self.frames[-1]))
                if k in self.captured:
                    node = CLOSURES[t][0]
                    now = self.capture(node)
                    if now != self.captured[k]:
                        t = self.closure_term(node)
                        CLOSURES[t] = (node, self.frames[-1])
                        self.captured[(t, id(self.frames[-1]))] = now
                        v = one(t)
            return self.prune(v)
        if ("@global:" + e.id) in self.st.env:
            g = mk("global", self.frames[-1].mod.name)
            h = self.st.heap.get((g, e.id))
            if h is not None:
                return h
        sym = self.tree.resolve(self.frames[-1].mod, e.id)
        return self.sym_value(sym)

    def sym_value(self, sym):
        if sym is None:
            return one(mk("unknown"))
        if sym.kind == "func":
            t = mk("fn", sym.qual)
            FNS[t] = sym.node
            return one(t)
        if sym.kind == "class":
            return one(mk("class", sym.qual))
        if sym.kind == "const":
            return self.const(sym)
        if sym.kind == "mod":
            return one(mk("module", sym.qual))
        if sym.kind == "builtin":
            if sym.qual in ("True", "False"):
                return one(Bool(sym.qual == "True"))
            return one(mk("builtin", sym.qual))
        if sym.kind == "ext":
            return one(mk("extref", sym.qual))
        return one(mk("unknown", sym.qual))

    def const(self, sym):
        q = sym.qual
        if q in self.const_opaque:
            return one(mk("global", q))
        r = self._const.get(q)
        if r is not None:
            return r
        if q in self._const_busy:
            return one(mk("global", q))
        c = None
        if sym.mod is not None and q.rpartition(".")[0] != sym.mod.name:
            c = self.tree.get_class(q.rpartition(".")[0])
        if c is not None and any(
                a.startswith("enum.") for a in self.tree.ancestors(c)):
            r = one(mk("enum", c.qual, q.rpartition(".")[2]))
            self._const[q] = r
            return r
        self._const_busy.add(q)
        sv = (self.st, self.events, self.aborts, self.frames, self.loops,
              self.depth, self.log, self.unsup)
        self.st = State({}, {}, TRUE)
        self.events, self.aborts, self.loops, self.depth = [], [], [], 0
        self.log, self.unsup = [], []
        self.frames = [Frame(None, sym.mod, None)]
        try:
            r = one(self.term(self.expr(sym.node)))
            if r[0][1].op in ("dict",):
                r = one(mk("global", q))
        finally:
            (self.st, self.events, self.aborts, self.frames, self.loops,
             self.depth, self.log, self.unsup) = sv
            self._const_busy.discard(q)
        self._const[q] = r
        return r

    def const_expr(self, mod, e):
        """Value of a module- or class-level expression."""
        self.reset()
        self.frames = [Frame(None, mod, None)]
        tm.new_budget(200_000)
        return self.term(self.expr(e))

    def const_term(self, mod, name):
        """Content of a module-level constant, tables included."""
        sym = self.tree.resolve(mod, name)
        self.reset()
        self.frames = [Frame(None, sym.mod or mod, None)]
        d = mod.defs.get(name)
        if sym.kind == "const":
            return self.term(self.expr(sym.node))
        return self.term(self.sym_value(sym))

    def e_Attribute(self, e):
        s = self.static(e)
        if s is not None and s.kind in ("func", "class", "const", "mod"):
            return self.sym_value(s)
        if s is not None and s.kind == "ext":
            if e.attr == "MAX_VALUE" and s.qual in MAXIMA:
                return one(MAXIMA[s.qual])
            return one(mk("extref", s.qual))
        b = self.expr(e.value)
        if len(b) == 1 and b[0][1].op == "class":
            c = self.tree.get_class(b[0][1].args[0])
            if c is not None:
                cc = self.tree.find_class_const(c, e.attr)
                if cc is not None:
                    from .project import Sym
                    return self.const(Sym("const", f"{cc[0].qual}.{e.attr}",
                                          cc[1], cc[0].mod))
        if len(b) == 1 and b[0][1].op == "module":
            return one(mk("extref", b[0][1].args[0] + "." + e.attr))
        return self.read_attr(b, e.attr)

    def static(self, e):
        """Static symbol denoted by a Name/Attribute chain, or None."""
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or root.id in self.st.env:
            return None
        if not self.frames:
            return None
        return self.tree.resolve_expr(self.frames[-1].mod, e)

    def e_Tuple(self, e):
        return self.seq("tuple", e.elts)

    def e_List(self, e):
        return self.seq("tuple", e.elts)

    def e_Set(self, e):
        return self.lift(lambda *xs: mk("set", *sorted(set(xs))),
                         *[self.expr(x) for x in e.elts])

    def seq(self, op, elts):
        if any(isinstance(x, ast.Starred) for x in elts):
            gvs = []
            flags = []
            for x in elts:
                if isinstance(x, ast.Starred):
                    gvs.append(self.content(self.expr(x.value)))
                    flags.append(True)
                else:
                    gvs.append(self.expr(x))
                    flags.append(False)

            def f(*ts):
                return tm.concat(*[t if fl else mk("tuple", t)
                                   for t, fl in zip(ts, flags)])
            return self.lift(f, *gvs)
        vals = [self.expr(x) for x in elts]
        return self.lift(lambda *xs: mk(op, *xs), *vals)

    def e_Dict(self, e):
        ks = []
        flat = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                flat.append(one(mk("star", self.term(self.expr(v)))))
                flat.append(one(NONE))
            else:
                flat.append(one(self.term(self.expr(k))))
                flat.append(one(self.term(self.expr(v))))

        def f(*xs):
            prs = [(xs[i], xs[i + 1]) for i in range(0, len(xs), 2)]
            prs.sort(key=lambda p: p[0].dig)
            return mk("dict", *[mk("pair", a, b) for a, b in prs])
        del ks
        return self.lift(f, *flat)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(Str(v.value))
            else:
                t = self.term(self.expr(v.value))
                sp = ""
                if v.format_spec is not None:
                    sp = ast.dump(v.format_spec)
                parts.append(mk("fmtv", t, sp, v.conversion))
        return one(tm.concat(*parts) if parts else Str(""))

    def e_FormattedValue(self, e):
        return self.expr(e.value)

    def e_BoolOp(self, e):
        # value semantics; booleans collapse to a condition
        isand = isinstance(e.op, ast.And)
        acc = self.expr(e.values[0])
        for v in e.values[1:]:
            c = self.cond_of(self.content(acc))
            take = c if isand else bnot(c)
            if band(self.st.live, take) is FALSE:
                continue
            box = []
            if band(self.st.live, bnot(take)) is FALSE:
                acc = self.expr(v)
                continue
            if has_call(v):
                self.branch(take, lambda: box.append(self.expr(v)),
                            lambda: None)
                r = box[0]
            else:
                base = self.st.live
                self.st.live = band(base, take)
                r = self.expr(v)
                self.st.live = base
            acc = gnorm([(band(take, g), t) for g, t in r]
                        + [(band(bnot(take), g), t) for g, t in acc],
                        self.st.live)
        return acc

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return one(bnot(self.cond(e.operand)))
        v = self.expr(e.operand)
        if isinstance(e.op, ast.USub):
            return self.lift(lambda x: tm.sub(ZERO, x), v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.lift(lambda x: mk("invert", x), v)

    def e_BinOp(self, e):
        a = self.content(self.expr(e.left))
        ta = self.bounded(e.left, a)
        b = self.content(self.expr(e.right))
        tb = self.bounded(e.right, b)
        if ta is not None:
            self.arith_faults(e, e.op, ta, tb, a, b)
        if isinstance(e.op, ast.BitOr) and self.is_set(e.left, a):
            return self.lift(lambda x, y: tm.union(x, y), a, b)
        return self.binop(e.op, a, b)

    def is_set(self, e, gv):
        t = self.ty(e)
        return t is not None and t[0] == "set" or all(
            x.op in ("set", "toset", "setadd", "setunion") for _, x in gv)

    def binop(self, op, a, b):
        f = {ast.Add: self.t_add, ast.Sub: tm.sub, ast.Mult: tm.mul,
             ast.FloorDiv: tm.floordiv, ast.Mod: tm.mod, ast.Pow: tm.power,
             ast.LShift: tm.lshift, ast.RShift: tm.rshift,
             ast.BitAnd: lambda x, y: tm.bitop("&", x, y),
             ast.BitOr: lambda x, y: tm.bitop("|", x, y),
             ast.BitXor: lambda x, y: tm.bitop("^", x, y),
             ast.Div: lambda x, y: mk("div", x, y),
             ast.MatMult: lambda x, y: mk("matmul", x, y)}[type(op)]
        return self.lift(f, a, b)

    def t_add(self, x, y):
        if self.k(x) == "seq" or self.k(y) == "seq":
            return tm.concat(x, y)
        return tm.add(x, y)

    def e_Compare(self, e):
        return one(self.compare(e))

    def e_IfExp(self, e):
        c = self.cond(e.test)
        live = self.st.live
        if band(live, c) is FALSE:
            return self.expr(e.orelse)
        if band(live, bnot(c)) is FALSE:
            return self.expr(e.body)
        box = {}
        self.branch(c, lambda: box.__setitem__(1, self.expr(e.body)),
                    lambda: box.__setitem__(2, self.expr(e.orelse)))
        return gnorm([(band(c, g), t) for g, t in box[1]]
                     + [(band(bnot(c), g), t) for g, t in box[2]],
                     self.st.live)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.lift(lambda x: mk("star", x),
                         self.content(self.expr(e.value)))

    def slice_parts(self, sl, base):
        lo = self.expr(sl.lower) if sl.lower is not None else one(ZERO)
        hi = self.expr(sl.upper) if sl.upper is not None else one(mk("end"))
        stp = self.expr(sl.step) if sl.step is not None else one(NONE)
        return lo, hi, stp

    def e_Subscript(self, e):
        # typing generics: Optional[X] etc. are irrelevant values
        b = self.content(self.expr(e.value))
        if isinstance(e.slice, ast.Slice):
            lo, hi, stp = self.slice_parts(e.slice, b)
            return self.lift(self.slice, b, lo, hi, stp)
        i = self.from_start(b, self.expr(e.slice))
        self.index_faults(e, b, i)
        r = self.lift(self.index, b, i)
        t = self.ty(e.value)
        if t is not None and t[0] == "dict" and len(t) > 3 and t[3]:
            for _, x in r:
                if x.op == "index":
                    tm.NONNULL.add(x)
        return r

    def from_start(self, b, i):
        """x[-1 - n] with n < len(x) known is x[len(x) - 1 - n]."""
        if len(i) != 1 or i[0][1].op != "poly":
            return i
        k = i[0][1]
        if not tm.nonneg(tm.sub(Int(-1), k)):
            return i
        ns = {tm.tlen(x) for _, x in self.prune(b)}
        if len(ns) != 1:
            return i
        p = tm.add(k, ns.pop())
        if band(self.st.live, tm.lt(p, ZERO)) is FALSE:
            return one(p)
        return i

    def slice(self, x, lo, hi, stp):
        if stp.op == "none":
            if lo is ZERO and hi.op == "end":
                return x
            if hi is tm.tlen(x):
                hi = mk("end")
                if lo is ZERO:
                    return x
            if x.op in ("bytes", "str", "tuple") and lo.op == "int" and (
                    hi.op in ("int", "end")):
                h = hi.args[0] if hi.op == "int" else None
                if x.op in ("bytes", "str"):
                    return mk(x.op, x.args[0][lo.args[0]:h])
                return mk(x.op, *x.args[lo.args[0]:h])
            # slice of slice with constant bounds
            if x.op == "slice" and x.args[3].op == "none" and \
                    lo.op == "int" and lo.args[0] >= 0 and \
                    hi.op == "end" and x.args[2].op == "end":
                return mk("slice", x.args[0], tm.add(x.args[1], lo), hi, stp)
        return mk("slice", x, lo, hi, stp)

    def copied(self, x):
        """A shallow copy of what a reference denotes; values are fresh."""
        if is_bool(x) or x.op in FRESH:
            return x
        return mk("copy", x)

    def index(self, x, i):
        x = tm.uncopy(x)
        if x.op in ("tuple", "list") and i.op == "int":
            n = i.args[0]
            if -len(x.args) <= n < len(x.args):
                return x.args[n]
        if x.op == "bytes" and i.op == "int" and \
                -len(x.args[0]) <= i.args[0] < len(x.args[0]):
            return Int(x.args[0][i.args[0]])
        if x.op == "upd" and x.args[0] == "set" and x.args[2] is i:
            return x.args[3]
        if x.op == "dict" and i.op in ("int", "bytes", "str"):
            for p in x.args:
                if p.op == "pair" and p.args[0] is i:
                    return p.args[1]
        # negative constant index on sequences of unknown length
        d = tm.sub(i, tm.tlen(x)) if i.op == "poly" else None
        if d is not None and d.op == "int" and d.args[0] < 0 and \
                x.op != "dict":
            i = d
        if x.op == "slice" and x.args[3].op == "none" and \
                x.args[2].op == "end" and tm.nonneg(i) and \
                x.args[1].op == "int" and x.args[1].args[0] >= 0:
            return self.index(x.args[0], tm.add(i, x.args[1]))
        if x.op == "global" and x.args[0] in self.const_opaque:
            pass
        return mk("index", x, i)

    # comprehension -> map
    def comp(self, e, mkelem, wrap):
        def rec(gens):
            g = gens[0]
            dom, bind = self.domain(g.iter)

            def bodyf():
                self.assign(g.target, bind(mk("idx", self.depth - 1)))
                c = TRUE
                for i in g.ifs:
                    c2 = self.cond(i)
                    c = band(c, c2)
                    self.st.live = band(self.st.live, c2)
                    if self.st.live is FALSE:
                        return
                if len(gens) > 1:
                    v = rec(gens[1:])
                    item = v
                else:
                    item = mkelem()
                old = self.st.env["@acc"]
                nv = self.lift(lambda o, x: tm.concat(o, x), old, item)
                self.st.env["@acc"] = nv
                if c is not TRUE:
                    self.st.live = TRUE if True else self.st.live
                    self.st.env["@acc"] = gnorm(
                        [(band(c, gg), t) for gg, t in nv]
                        + [(band(bnot(c), gg), t) for gg, t in old])
            saved = dict(self.st.env)
            acc = mk("tuple")
            self.st.env["@acc"] = one(acc)
            if dom.op == "int" and dom.args[0] == 0:
                self.st.env = saved
                return one(mk("tuple"))
            n_aborts = len(self.aborts)
            self.run_loop(dom, None, bodyf, [])
            del n_aborts
            r = self.st.env["@acc"]
            newenv = dict(saved)
            self.st.env = newenv
            return r
        return wrap(rec(e.generators))

    def e_ListComp(self, e):
        return self.comp(e, lambda: self.lift(
            lambda x: mk("tuple", x), self.content(self.expr(e.elt))),
            lambda v: v)

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        return self.lift(self.toset, self.e_ListComp(e))

    def toset(self, x):
        if x.op == "tuple" and not x.args:
            return mk("set")
        if x.op == "tuple":
            return mk("set", *sorted(set(x.args)))
        if x.op == "map":
            return tm.union(mk("set"), x)
        if x.op in ("set", "toset", "setadd", "setunion"):
            return x
        return mk("toset", x)

    def e_DictComp(self, e):
        return self.comp(e, lambda: self.lift(
            lambda k, v: mk("tuple", mk("tuple", k, v)),
            self.expr(e.key), self.expr(e.value)),
            lambda v: self.lift(lambda x: mk("todict", x), v))

    def e_Lambda(self, e):
        sv = self.st.env
        self.st.env = dict(sv)
        a = e.args
        i = 0
        for x in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) \
                + a.kwonlyargs + ([a.kwarg] if a.kwarg else []):
            self.st.env[x.arg] = one(mk("lp", self.depth, i))
            i += 1
        for d in a.defaults:
            pass
        evs = self.events
        self.events = []
        heap = dict(self.st.heap)
        live = self.st.live
        self.tags.append(id(e))
        try:
            body = self.term(self.expr(e.body))
            inner = tuple(sorted((x for _, x in self.events)))
        finally:
            self.tags.pop()
            self.events = evs
            self.st.heap = heap
            self.st.live = live
        self.st.env = sv
        t = mk("lambda", i, body, *inner)
        LAMBDAS[t] = e
        return one(t)

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else UNIT
        self.frames[-1].yields = True
        acc = self.st.env.get("@yield", one(mk("tuple")))
        self.st.env["@yield"] = self.lift(
            lambda a, x: tm.concat(a, mk("tuple", x)), acc, self.content(v))
        return UNIT

    def e_YieldFrom(self, e):
        v = self.content(self.expr(e.value))
        self.frames[-1].yields = True
        acc = self.st.env.get("@yield", one(mk("tuple")))
        self.st.env["@yield"] = self.lift(
            lambda a, x: tm.concat(a, x), acc, v)
        return UNIT

    def e_Await(self, e):
        return self.expr(e.value)

    # --------------------------------------------------------------- calls
    def e_Call(self, e, stmt=False):
        f = e.func
        # higher-order reductions over generators
        if isinstance(f, ast.Name) and f.id not in self.st.env and \
                len(e.args) == 1 and not e.keywords and isinstance(
                    e.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                f.id in ("any", "all", "sum") and \
                self.tree.resolve(self.frames[-1].mod, f.id).kind == \
                "builtin":
            return self.reduce(f.id, e.args[0])
        sym = self.static(f)
        selfarg = None
        if sym is None and isinstance(f, ast.Name):
            v = self.expr(f)
            if len(v) == 1:
                t = v[0][1]
                if t.op == "fn":
                    fn = FNS.get(t) or self.tree.get_func(t.args[0])
                    if fn is not None:
                        return self.call_func(fn, e, stmt)
                if t.op == "class":
                    sym = self.tree.resolve_dotted(t.args[0])
                    if sym.kind == "class":
                        return self.instantiate(sym.node, e)
                if t.op == "closure" and t in CLOSURES:
                    return self.call_closure(t, e)
                if t.op == "lambda" and t in LAMBDAS:
                    return self.call_lambda(LAMBDAS[t], e)
                if t.op == "extref":
                    return self.call_ext(t.args[0], e, stmt)
                if t.op == "builtin":
                    return self.call_builtin(t.args[0], e, stmt)
            elif all(t.op == "fn" for _, t in v):
                return self.call_choice(v, e, stmt)
            return self.call_dyn(v, e, stmt)
        if sym is not None:
            if sym.kind == "func":
                return self.call_func(sym.node, e, stmt)
            if sym.kind == "class":
                return self.instantiate(sym.node, e)
            if sym.kind == "ext":
                return self.call_ext(sym.qual, e, stmt)
            if sym.kind == "builtin":
                return self.call_builtin(sym.qual, e, stmt)
            if sym.kind == "const":
                v = self.const(sym)
                t = v[0][1]
                if t.op == "extref":
                    return self.call_ext(t.args[0], e, stmt)
                if t.op == "partial":
                    return self.call_partial(t, e, stmt)
                return self.call_dyn(v, e, stmt)
            if sym.kind == "unknown":
                if sym.qual in ("ulen",):
                    return self.call_builtin("len", e, stmt)
                return self.call_dyn(one(mk("unknown", sym.qual)), e, stmt)
        if isinstance(f, ast.Attribute):
            # super().m(...)
            if isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == "super":
                cls = self.frames[-1].cls
                if cls is not None:
                    for k in self.tree.mro(cls)[1:]:
                        if f.attr in k.methods:
                            return self.call_func(
                                k.methods[f.attr], e, stmt,
                                self.st.env.get(
                                    self.frames[-1].fn.params[0]))
            return self.call_method(f, e, stmt)
        v = self.expr(f)
        if isinstance(f, ast.Lambda) and len(v) == 1 and \
                v[0][1] in LAMBDAS and not f.args.defaults and \
                not f.args.vararg and not f.args.kwarg:
            return self.call_lambda(f, e)
        if len(v) == 1 and v[0][1].op == "fn":
            fn = FNS.get(v[0][1])
            if fn is not None:
                return self.call_func(fn, e, stmt)
        return self.call_dyn(v, e, stmt)

    def reduce(self, name, comp):
        box = {}
        el = comp.elt

        def item():
            if name == "sum":
                return self.expr(el)
            return one(self.cond(el))
        gens = comp.generators

        def rec(gs):
            g = gs[0]
            dom, bind = self.domain(g.iter)
            if dom.op == "int" and dom.args[0] == 0:
                return
            if dom.op == "int" and dom.args[0] <= 4:
                for j in range(dom.args[0]):
                    self.assign(g.target, bind(Int(j)))
                    step(g, gs)
                return

            def bodyf():
                self.assign(g.target, bind(mk("idx", self.depth - 1)))
                step(g, gs)
            self.run_loop(dom, None, bodyf, [])

        def step(g, gs):
            c = TRUE
            base = self.st.live
            for i in g.ifs:
                c2 = self.cond(i)
                c = band(c, c2)
                self.st.live = band(self.st.live, c2)
            if self.st.live is FALSE:
                self.st.live = base
                return
            if len(gs) > 1:
                rec(gs[1:])
            else:
                v = item()
                old = self.st.env["@acc"]
                if name == "sum":
                    nv = self.lift(self.t_add, old, v)
                elif name == "any":
                    nv = self.lift(lambda o, x: bor(truth(o), truth(x)),
                                   old, v)
                else:
                    nv = self.lift(lambda o, x: band(truth(o), truth(x)),
                                   old, v)
                self.st.env["@acc"] = gnorm(
                    [(band(c, gg), t) for gg, t in nv]
                    + [(band(bnot(c), gg), t) for gg, t in old])
            self.st.live = base
        saved = dict(self.st.env)
        self.st.env["@acc"] = one({"sum": ZERO, "any": FALSE,
                                   "all": TRUE}[name])
        rec(gens)
        r = self.st.env["@acc"]
        self.st.env = saved
        del box
        return r

    # bind call arguments to parameter order
    def bind_args(self, fn, e, selfarg=None):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        i = 0
        if selfarg is not None:
            if pos:
                vals[pos[0]] = selfarg
            i = 1
        extra = []
        unknown = False
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.content(self.expr(x.value))
                t = self.term(v)
                if t.op == "tuple":
                    for y in t.args:
                        if i < len(pos):
                            vals[pos[i]] = one(y)
                            i += 1
                        else:
                            extra.append(one(y))
                else:
                    unknown = True
                    extra.append(one(mk("star", t)))
                continue
            v = self.expr(x)
            if i < len(pos):
                vals[pos[i]] = v
                i += 1
            else:
                extra.append(v)
        kwonly = [x.arg for x in a.kwonlyargs]
        extrakw = []
        for kw in e.keywords:
            v = self.expr(kw.value)
            if kw.arg is None:
                t = self.term(self.content(v))
                done = False
                if t.op == "dict" and all(p.op == "pair" and p.args[0].op
                                          == "str" for p in t.args):
                    done = True
                    for p in t.args:
                        n = p.args[0].args[0]
                        if n in pos or n in kwonly:
                            vals[n] = one(p.args[1])
                        else:
                            extrakw.append((n, one(p.args[1])))
                if not done:
                    unknown = True
                    extrakw.append(("**", one(t)))
            elif kw.arg in pos or kw.arg in kwonly:
                vals[kw.arg] = v
            else:
                extrakw.append((kw.arg, v))
        # defaults
        dn = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for n, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                dn[n] = d
        for n in pos + kwonly:
            if n not in vals and n in dn:
                vals[n] = self.default_value(fn, dn[n])
        return vals, pos, kwonly, extra, extrakw, unknown

    def default_value(self, fn, d):
        sv = (self.st.env, self.frames)
        self.st.env = {}
        self.frames = [Frame(fn, fn.mod, fn.cls)]
        try:
            return self.expr(d)
        finally:
            self.st.env, self.frames = sv

    def call_func(self, fn, e, stmt=False, selfarg=None):
        if fn.cls is not None and selfarg is None:
            decs = {d.id for d in fn.node.decorator_list
                    if isinstance(d, ast.Name)}
            if "classmethod" in decs:
                selfarg = one(mk("class", fn.cls.qual))
        vals, pos, kwonly, extra, extrakw, unknown = self.bind_args(
            fn, e, selfarg)
        if self.st.live is FALSE:
            return one(mk("dead"))
        if fn.qual in self.boundary or fn.qual in self.stack or \
                len(self.stack) > self.MAX_INLINE or unknown or \
                fn.qual.startswith("ethereum.trace."):
            if fn.qual not in self.boundary:
                self.forced.add(fn.qual)
            args = [vals.get(p, one(mk("missing"))) for p in pos + kwonly]
            args += extra
            nodes = {}
            off = 1 if selfarg is not None else 0
            for i, x in enumerate(e.args):
                nodes[i + off] = x
            allp = pos + kwonly
            for kw in e.keywords:
                if kw.arg in allp:
                    nodes[allp.index(kw.arg)] = kw.value
            if extrakw:
                for n, v in sorted(extrakw, key=lambda p: p[0]):
                    args.append(one(mk("kw", n, self.term(v))))
            return self.boundary_call(fn, args, nodes, e, stmt)
        vmap = dict(vals)
        a = fn.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            for _, t in vals.get(x.arg, ()):
                self.note_union(t, fn.mod, x.annotation)
        if a.vararg:
            vmap[a.vararg.arg] = self.lift(lambda *x: mk("tuple", *x),
                                           *extra) if extra else one(
                                               mk("tuple"))
        if a.kwarg:
            prs = [mk("pair", Str(n), self.term(v)) for n, v in
                   sorted(extrakw, key=lambda p: p[0])]
            prs.sort(key=lambda p: p.args[0].dig)
            vmap[a.kwarg.arg] = one(mk("dict", *prs))
        return self.inline(fn, None, vmap,
                           self.arg_nodes(fn, e, selfarg is not None))

    def arg_nodes(self, fn, e, has_self):
        """Parameter name -> argument expression, for named containers."""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if any(isinstance(x, ast.Starred) for x in e.args):
            return {}
        off = 1 if has_self else 0
        out = {}
        for i, x in enumerate(e.args):
            if i + off < len(pos):
                out[pos[i + off]] = x
        for k in e.keywords:
            if k.arg is not None:
                out[k.arg] = k.value
        return {p: x for p, x in out.items()
                if isinstance(x, (ast.Name, ast.Attribute))}

    _mutp = {}

    def mutated_params(self, fn):
        r = self._mutp.get(fn.node)
        if r is None:
            r = set()
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Attribute) and isinstance(
                            x.func.value, ast.Name) and \
                            x.func.attr in MUTATORS:
                        r.add(x.func.value.id)
                    for y in list(x.args) + [k.value for k in x.keywords]:
                        if isinstance(y, ast.Name):
                            r.add(y.id)
                elif isinstance(x, ast.Subscript) and isinstance(
                        x.ctx, (ast.Store, ast.Del)) and isinstance(
                            x.value, ast.Name):
                    r.add(x.value.id)
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Name) and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    r.discard(x.id)
            r &= set(fn.params)
            self._mutp[fn.node] = r
        return r

    def inline(self, fn, args, vmap, argn=None):
        if args is not None:
            vmap = dict(zip(fn.params, args))
        boxes = []
        if argn:
            for p in sorted(self.mutated_params(fn) & set(argn)):
                v = vmap.get(p)
                if v is None or not any(self.is_value(t) for _, t in v):
                    continue
                vmap = dict(vmap)
                box = mk("ref", fn.qual, p, len(self.stack))
                boxes.append((box, argn[p], v))
                self.st.heap[(box, "*")] = v
                vmap[p] = one(box)
        r = self.inline1(fn, vmap)
        if not boxes:
            return r
        hp = self.st.heap
        for box, node, v in boxes:
            new = hp.pop((box, "*"), v)
            self.value_lv.update(t for _, t in new)
            def deep(gv):
                if not any(contains_term(t, box) for _, t in gv):
                    return gv
                nt = self.term(new)
                return gnorm([(band(g, h), u) for g, t in gv for h, u
                              in (new if t is box else
                                  one(tm.subst(t, {box: nt})))])
            for k, gv in list(hp.items()):
                hp[k] = deep(gv)
            r = deep(r)
            if new != v:
                self.rebind(node, v, new)
        return r

    def inline1(self, fn, vmap):
        if fn.qual in self.stack or len(self.stack) > self.MAX_INLINE:
            self.forced.add(fn.qual)
            return one(mk("rec", fn.qual))
        fr = Frame(fn, fn.mod, fn.cls)
        sv_env = self.st.env
        sv_loops = self.loops
        self.loops = []
        self.frames.append(fr)
        self.stack.append(fn.qual)
        self.st.env = dict(vmap)
        a = fn.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg not in self.st.env:
                self.st.env[x.arg] = one(mk("missing"))
        st_in = self.st
        live_in = st_in.live
        try:
            self.body(strip_doc(fn.node), fr)
        finally:
            self.frames.pop()
            self.stack.pop()
            self.loops = sv_loops
        ret, heap, live = self.finish_returns(fr)
        self.st = State(sv_env, heap if fr.returns else dict(st_in.heap),
                        live)
        del live_in
        return ret

    def call_closure(self, t, e):
        node, fr0 = CLOSURES[t]
        self.called.add(id(node))
        fn = Func("closure." + node.name, node, self.frames[-1].mod,
                  self.frames[-1].cls)
        vals, pos, kwonly, extra, extrakw, unknown = self.bind_args(fn, e)
        if fn.qual in self.stack or unknown:
            return one(mk("rec", fn.qual))
        fr = Frame(fn, fn.mod, fn.cls)
        env = dict(self.st.env)
        outer = self.st.env
        env.update(vals)
        sv_loops = self.loops
        self.loops = []
        self.frames.append(fr)
        self.stack.append(fn.qual)
        self.st.env = env
        try:
            self.body(strip_doc(node), fr)
        finally:
            self.frames.pop()
            self.stack.pop()
            self.loops = sv_loops
        ret, heap, live = self.finish_returns(fr)
        self.st = State(outer, heap, live)
        return ret

    def call_lambda(self, node, e):
        self.called.add(id(node))
        a = node.args
        vals = [self.expr(x) for x in e.args]
        kws = {k.arg: self.expr(k.value) for k in e.keywords}
        sv = self.st.env
        self.st.env = dict(sv)
        for x, v in zip(a.args, vals):
            self.st.env[x.arg] = v
        for k, v in kws.items():
            self.st.env[k] = v
        r = self.expr(node.body)
        self.st.env = sv
        return r

    def call_partial(self, t, e, stmt):
        fnt = t.args[0]
        fn = self.tree.get_func(fnt.args[0]) if fnt.op == "fn" else None
        if fn is None:
            return self.call_dyn(one(t), e, stmt)
        kws = {t.args[i]: one(t.args[i + 1])
               for i in range(2, len(t.args), 2)}
        pos = t.args[1].args
        vals, p, kwonly, extra, extrakw, unknown = self.bind_args(fn, e)
        v2 = {}
        names = [n for n in p if n not in kws]
        given = [one(x) for x in pos] + [self.expr(x) for x in e.args]
        for n, g in zip(names, given):
            v2[n] = g
        v2.update(kws)
        if fn.qual in self.boundary:
            return self.boundary_call(fn, [v2.get(n, one(mk("missing")))
                                           for n in p], {}, e, stmt)
        return self.inline(fn, None, v2)

    def call_choice(self, v, e, stmt):
        """Callee is one of several project functions."""
        results = []

        def rec(items):
            g, t = items[0]
            fn = FNS.get(t) or self.tree.get_func(t.args[0])
            box = []
            if len(items) == 1:
                r = self.call_func(fn, e, stmt)
                results.append((g, r))
                return
            self.branch(g, lambda: box.append(self.call_func(fn, e, stmt)),
                        lambda: rec(items[1:]))
            if box:
                results.append((g, box[0]))
        rec(list(v))
        return gnorm([(band(g, h), t) for g, r in results for h, t in r],
                     self.st.live)

    # --- opaque project call
    def boundary_call(self, fn, args, nodes, e, stmt):
        info = self.infos.get(fn.qual)
        short = fn.qual.rpartition(".")[2]
        reads = sorted(info.reads) if info else []
        mods = sorted(info.mods) if info else []
        if short in self.WATCH and self.st.live is not FALSE:
            self.points.append((self.st.live, self.observable(self.st.heap),
                                list(self.log), e, args,
                                len(self.loops)))
        self.note("call", e, qual=fn.qual, args=args)
        argc = [self.content(a) for a in args]
        out = []
        retk = self.tree.ann_kind(fn.node.returns)
        live0 = self.st.live
        part = STATE_PART.get(short)
        todo = []
        for g, ts in self.combos(list(args) + argc):
            objs, cts = ts[:len(args)], ts[len(args):]
            ctx = []
            for p in reads:
                if p[0] >= len(objs) or len(p) < 2 or p[1:] == ("*",):
                    continue
                v = self.walk(objs[p[0]], p[1:])
                if v is not None:
                    ctx.append(mk("ctx", ".".join(map(str, p)),
                                  self.term(v)))
            todo.append((g, objs, cts, ctx))
        # normalise state content for independent writers
        for g, objs, cts, ctx in todo:
            if part is not None and cts:
                base = cts[0]
                deps = base
                if base.op == "W":
                    rel = [w for w in base.args[1:]
                           if STATE_PART.get(w.args[0].rpartition(".")[2])
                           == part]
                    deps = mk("W", base.args[0], *rel) if rel \
                        else base.args[0]
                call = mk("call", fn.qual, deps, *cts[1:], *ctx)
            else:
                call = mk("call", fn.qual, *cts, *ctx)
            if retk in ("int", "seq", "obj"):
                set_kind(call, retk)
            self.note_union(call, fn.mod, fn.node.returns)
            out.append((g, call))
            if info is None or info.raises or mods or stmt:
                self.event(call, g)
            wild = [p for p in mods if p[0] < len(objs)]
            for p in wild:
                o = objs[p[0]]
                path = p[1:]
                if not path:
                    continue
                if part is not None and p[0] == 0 and path == ("*",):
                    base = cts[0]
                    if base.op == "W":
                        ws = sorted(set(base.args[1:]) | {call})
                        nv = mk("W", base.args[0], *ws)
                    else:
                        nv = mk("W", base, call)
                    self.post_write(o, path, nv, g, nodes.get(p[0]))
                    continue
                nv = mk("post", call, ".".join(map(str, p)))
                self.post_write(o, path, nv, g, nodes.get(p[0]))
        del live0
        return gnorm(out, self.st.live)

    def walk(self, o, path):
        """Current value of an access path if the heap changed on it."""
        h = self.st.heap
        if not h:
            return None
        cur = one(o)
        touched = False
        for a in path:
            if len(cur) != 1:
                break
            t = cur[0][1]
            if a == "*":
                c = h.get((t, "*"))
                if c is not None:
                    return c
                return cur if touched else None
            if (t, a) in h:
                cur = h[(t, a)]
                touched = True
            elif (t, "*") in h:
                return h[(t, "*")]
            else:
                cur = one(self.attr_term(t, a))
        if len(cur) == 1:
            c = h.get((cur[0][1], "*"))
            if c is not None:
                return c
        return cur if touched else None

    def post_write(self, o, path, nv, g, node):
        if o.op == "gv" or o.op == "class":
            return
        cur = o
        for i, a in enumerate(path):
            last = i == len(path) - 1
            if a == "*":
                if self.is_value(cur):
                    # fresh local value passed to a mutator
                    self.value_lv.add(nv)
                    if node is not None and i == 0 and isinstance(
                            node, ast.Name) and node.id in self.st.env:
                        old = self.st.env[node.id]
                        self.rebind(node, old, gnorm(
                            [(g, nv)] + [(band(bnot(g), h), t)
                                         for h, t in old]))
                        return
                    if i > 0:
                        # holder attribute
                        ho = holder
                        self.write_attr_g(ho, path[i - 1], nv, g)
                        return
                    if node is not None and isinstance(node, ast.Attribute):
                        sv = len(self.events)
                        b = self.expr(node.value)
                        del self.events[sv:]
                        if len(b) == 1:
                            self.write_attr_g(b[0][1], node.attr, nv, g)
                        return
                self.write_content(cur, one(nv), g)
                return
            if last:
                self.write_attr_g(cur, a, nv, g)
                return
            v = self.read_attr1(cur, a, self.st.heap)
            holder = cur
            cur = self.term(v)

    def write_attr_g(self, o, a, nv, g):
        if g is TRUE:
            self.st.heap[(o, a)] = one(nv)
        else:
            old = self.read_attr1(o, a, self.st.heap)
            self.st.heap[(o, a)] = gnorm(
                [(g, nv)] + [(band(bnot(g), h), t) for h, t in old],
                self.st.live)

    def instantiate(self, c, e):
        anc = self.tree.ancestors(c)
        fields = self.tree.all_fields(c)
        isenum = any(a.startswith("enum.") for a in anc)
        if isenum:
            args = [self.expr(a) for a in e.args]
            return self.lift(lambda *x: mk("enumof", c.qual, *x), *args)
        init = self.tree.find_method(c, "__init__")
        names = list(fields)
        vals = {}
        extra = []
        for i, a in enumerate(e.args):
            if isinstance(a, ast.Starred):
                extra.append(one(mk("star", self.term(self.expr(a.value)))))
                continue
            v = self.content(self.expr(a))
            if i < len(names) and init is None:
                vals[names[i]] = v
            else:
                extra.append(v)
        for k in e.keywords:
            v = self.content(self.expr(k.value))
            if k.arg is None:
                t = self.term(v)
                if t.op == "dict" and all(
                        p.op == "pair" and p.args[0].op == "str"
                        for p in t.args):
                    for p in t.args:
                        vals[p.args[0].args[0]] = one(p.args[1])
                else:
                    extra.append(one(mk("star", t)))
            else:
                vals[k.arg] = v
        if init is None and not any(
                a in ("Exception", "builtins.Exception") for a in anc):
            for n, (a, d, k) in fields.items():
                if n not in vals and d is not None and not extra:
                    vals[n] = self.field_default(k, d)
        ks = sorted(vals)

        def f(*xs):
            flat = []
            for n, x in zip(ks, xs):
                flat += [n, x]
            flat += list(xs[len(ks):])
            return mk("new", c.qual, *flat)
        gvs = [vals[n] for n in ks] + extra
        self.note("new", e, qual=c.qual, vals=vals)
        n = 1
        for g in gvs:
            n *= len(self.prune(g))
        if n > CAP:
            gvs = [one(self.term(g)) for g in gvs]
        r = self.lift(f, *gvs)
        if init is not None:
            for g, t in r:
                self.event(t, g)
        return r

    def field_default(self, cls, d):
        sv = (self.st.env, self.frames)
        self.st.env = {}
        self.frames = [Frame(None, cls.mod, None)]
        try:
            if isinstance(d, ast.Call):
                nm = d.func.id if isinstance(d.func, ast.Name) else getattr(
                    d.func, "attr", "")
                if nm == "field":
                    for k in d.keywords:
                        if k.arg == "default":
                            return self.expr(k.value)
                        if k.arg == "default_factory":
                            return self.expr(ast.Call(
                                func=k.value, args=[], keywords=[]))
            return self.expr(d)
        finally:
            self.st.env, self.frames = sv

    def args_of(self, e):
        """Positional gvs + sorted kwargs of an external call."""
        args = []
        for a in e.args:
            args.append(self.content(self.expr(a)))
        for k in sorted(e.keywords, key=lambda k: k.arg or "**"):
            v = self.content(self.expr(k.value))
            args.append(self.lift(lambda x: mk("kw", k.arg or "**", x), v))
        return args

    def ext_term(self, q, args, stmt):
        for i, a in enumerate(args):
            pass
        r = self.lift(lambda *xs: mk("ext", q, *xs), *args)
        if stmt:
            for g, t in r:
                self.event(t, g)
        return r

    def call_ext(self, q, e, stmt):
        if q in IDENT:
            if q == "typing.cast" and len(e.args) == 2:
                return self.expr(e.args[1])
            if len(e.args) == 1 and not e.keywords:
                v = self.content(self.expr(e.args[0]))
                if q.startswith("ethereum_types.numeric") :
                    self.bounded(e.args[0], v)
                    self.ctor_faults(e, q.rpartition(".")[2], e.args[0], v)
                    self.bounded(e, v)
                    return self.lift(lambda x: tm.Int(1 if x is TRUE else 0)
                                     if is_bool(x) and x.op != "B" else x, v)
                return v
            if not e.args:
                return one(Bytes(b""))
        tail = q.rpartition(".")[2]
        base = q.rpartition(".")[0]
        if q == "ethereum_types.numeric.ulen":
            return self.call_builtin("len", e, stmt)
        if q == "functools.partial":
            args = [self.expr(a) for a in e.args]
            kws = []
            for k in sorted(e.keywords, key=lambda k: k.arg or ""):
                kws += [k.arg, self.term(self.expr(k.value))]
            return one(mk("partial", self.term(args[0]),
                          mk("tuple", *[self.term(a) for a in args[1:]]),
                          *kws))
        if base.startswith("ethereum_types.") or base in IDENT:
            args = self.args_of(e)
            if tail in ("from_be_bytes", "from_le_bytes") and args:
                if not tail.startswith("from_le"):
                    r = self.lift(lambda x: mk("ext", "be2int", x)
                                  if x.op != "bytes" else
                                  Int(int.from_bytes(x.args[0], "big")),
                                  args[0])
                else:
                    r = self.lift(lambda x: mk("ext", "le2int", x), args[0])
                for _, t in r:
                    set_kind(t, "int")
                return r
            if tail == "from_signed":
                return self.lift(lambda x: mk("ext", q, x), args[0])
        args = self.args_of(e)
        if q == "copy.copy" and len(args) == 1 and not e.keywords:
            t = self.ty(e.args[0])
            if t is not None and t[0] in ("list", "dict", "set"):
                return self.lift(self.copied, self.content(args[0]))
        self.note("ext", e, qual=q, args=args)
        r = self.lift(lambda *xs: mk("ext", q, *xs), *args)
        if stmt:
            for g, t in r:
                self.event(t, g)
        return r

    def call_dyn(self, v, e, stmt):
        """Dynamic callee: writes everything reachable from its arguments."""
        args = [self.expr(a) for a in e.args]
        kws = [(k.arg or "**", self.expr(k.value)) for k in e.keywords]
        gvs = args + [x for _, x in sorted(kws, key=lambda p: p[0])]
        names = [n for n, _ in sorted(kws, key=lambda p: p[0])]
        ft = self.term(v)
        self.note("dyn", e, callee=ft)
        ts = [self.term(self.content(g)) for g in gvs]
        ctx = []
        for g in gvs:
            for _, o in g:
                for (b, a), val in sorted(
                        self.st.heap.items(),
                        key=lambda kv: (kv[0][0].dig, str(kv[0][1]))):
                    if b is o or self.under(b, o):
                        ctx.append(mk("ctx", str(a), b, self.term(val)))
        call = mk("dyn", ft, mk("names", *names), *ts, *ctx)
        self.event(call)
        for g in gvs:
            for gg, o in g:
                if o.op in ("param", "attr", "call", "new", "index", "post"):
                    for k in [k for k in self.st.heap
                              if self.under(k[0], o)]:
                        del self.st.heap[k]
                    self.write_content(o, one(mk("post", call, "*")), gg)
        return one(call)

    @staticmethod
    def under(b, o):
        while True:
            if b is o:
                return True
            if b.op in ("attr", "index"):
                b = b.args[0]
            else:
                return False

    def call_method(self, f, e, stmt):
        base = self.expr(f.value)
        name = f.attr
        # class or module objects held in variables
        if len(base) == 1:
            bt = base[0][1]
            if bt.op == "module":
                return self.call_ext(bt.args[0] + "." + name, e, stmt)
            if bt.op == "extref":
                return self.call_ext(bt.args[0] + "." + name, e, stmt)
            if bt.op == "class":
                c = self.tree.get_class(bt.args[0])
                m = self.tree.find_method(c, name) if c else None
                if m is not None:
                    return self.call_func(m, e, stmt)
            # methods of self / annotated params
            c = self.class_of(bt, f.value)
            if c is not None:
                m = self.tree.find_method(c, name)
                if m is not None:
                    return self.call_func(m, e, stmt, base)
        if name in ("append", "extend", "add", "update", "remove", "discard",
                    "clear", "insert", "setdefault", "sort", "reverse",
                    "pop", "popitem"):
            args = [self.content(self.expr(a)) for a in e.args]
            if name in ("pop", "setdefault") and not e.keywords:
                r = self.lookup(f, base, name, args)
                if r is not None:
                    return r
            cur = self.content(base)
            ats = [self.term(a) for a in args]
            if name == "append" and len(args) == 1:
                self.mutate(f.value, base, lambda old: self.lift(
                    lambda x: tm.concat(old, mk("tuple", x)), args[0]))
                return UNIT
            if name == "extend" and len(args) == 1:
                self.mutate(f.value, base, lambda old: self.lift(
                    lambda x: tm.concat(old, x), args[0]))
                return UNIT
            if name == "add" and len(args) == 1:
                self.mutate(f.value, base, lambda old: self.lift(
                    lambda x: self.setadd(old, x), args[0]))
                return UNIT
            if name == "update" and len(args) == 1 and not e.keywords:
                self.mutate(f.value, base, lambda old: self.lift(
                    lambda x: tm.union(old, x),
                    args[0]))
                return UNIT
            call = mk("m", name, self.term(cur), *ats)
            self.mutate(f.value, base, lambda old: one(
                mk("upd", name, old, *ats)))
            return one(call)
        if name == "get" and not e.keywords and e.args:
            r = self.lookup(f, base, name, [self.content(self.expr(a))
                                            for a in e.args])
            if r is not None:
                return r
        cur = self.content(base)
        args = self.args_of(e)
        if name in ("to_be_bytes32", "to_le_bytes32", "to_be_bytes8",
                    "to_le_bytes8", "to_be_bytes4", "to_le_bytes4"):
            bt = self.numty(f.value)
            bits = 8 * int(name.lstrip("to_beylsi"))
            if bt in UNSIGNED and not BITS.get(bt, 1 << 20) <= bits:
                for g, x in self.prune(cur):
                    self.fault("OverflowError", "does not fit", e, tm.gt0(
                        tm.sub(x, Int((1 << bits) - 1))), g)
        if name == "join" and len(args) == 1:
            def jn(sep, x):
                if sep.op == "bytes" and not sep.args[0]:
                    if x.op == "map" and x.args[1].op == "tuple" and \
                            len(x.args[1].args) == 1:
                        return mk("map", x.args[0], x.args[1].args[0])
                    if x.op == "tuple":
                        return tm.concat(Bytes(b""), *x.args)
                return mk("m", "join", sep, x)
            return self.lift(jn, cur, args[0])
        self.note("method", e, name=name, base=base, args=args)
        comm = name in ("wrapping_add", "wrapping_mul")

        def mf(b, *xs):
            if comm and len(xs) == 1:
                b, x = sorted((b, xs[0]))
                return mk("m", name, b, x)
            if name == "to_signed":
                return mk("call", "to_signed", b)
            if name in ("union",) and len(xs) == 1:
                return tm.union(b, xs[0])
            if name == "copy" and not xs:
                return self.copied(b)
            return mk("m", name, b, *xs)
        r = self.lift(mf, cur, *args)
        if name.startswith("wrapping_") or name in ("bit_length", "count",
                                                    "find"):
            for _, t in r:
                set_kind(t, "int")
        elif name.startswith("to_be_bytes") or name in (
                "encode", "hex", "to_le_bytes", "ljust", "rjust", "zfill",
                "to_bytes", "keys", "values", "items", "split"):
            for _, t in r:
                set_kind(t, "seq")
        if name not in PURE_METHODS:
            for g, t in r:
                self.event(t, g)
            if stmt:
                for g, o in self.prune(base):
                    if o.op in ("param", "attr", "index", "call", "ext",
                                "post", "new", "enter", "m"):
                        self.write_content(o, self.lift(
                            lambda x: mk("post", x, "*"), r), g)
        return r

    def setadd(self, old, x):
        old = tm.uncopy(old)
        if old.op == "setadd":
            return mk("setadd", old.args[0],
                      *sorted(set(old.args[1:]) | {x}))
        if old.op == "set":
            return mk("set", *sorted(set(old.args) | {x}))
        return mk("setadd", old, x)

    def class_of(self, t, node):
        fr = self.frames[-1]
        if t.op == "new":
            return self.tree.get_class(t.args[0])
        if t in self.pclass:
            return self.pclass[t]
        if fr.fn is not None and fr.cls is not None and fr.fn.params and \
                isinstance(node, ast.Name) and node.id == fr.fn.params[0]:
            return fr.cls
        if isinstance(node, ast.Name) and fr.fn is not None:
            for x in fr.fn.node.args.args:
                if x.arg == node.id and x.annotation is not None:
                    s = None
                    try:
                        s = self.tree.resolve_expr(fr.mod, x.annotation)
                    except Exception:
                        pass
                    if s is not None and s.kind == "class":
                        return s.node
        return None

    def call_builtin(self, n, e, stmt):
        a = e.args
        if n == "len" and len(a) == 1:
            return self.lift(tm.tlen, self.content(self.expr(a[0])))
        if n in ("min", "max") and a:
            if len(a) == 1 and not isinstance(a[0], ast.Starred):
                v = self.content(self.expr(a[0]))
                kws = self.args_of(ast.Call(func=e.func, args=[],
                                            keywords=e.keywords))
                return self.lift(lambda x, *k: mk("ext", n, x, *k), v, *kws)
            if not e.keywords and not any(isinstance(x, ast.Starred)
                                          for x in a):
                return self.lift(lambda *xs: tm.minmax(n, list(xs)),
                                 *[self.content(self.expr(x)) for x in a])
        if n == "isinstance" and len(a) == 2:
            v = self.expr(a[0])
            cl = a[1].elts if isinstance(a[1], ast.Tuple) else [a[1]]
            r = FALSE
            qs = []
            for c in cl:
                s = self.static(c)
                if s is not None:
                    qs.append(s.qual)
                else:
                    ct = self.term(self.expr(c))
                    qs.append(ct.args[0] if ct.op in ("class", "extref")
                              else ct)
            for g, t in self.prune(v):
                x = FALSE
                for q in qs:
                    if t.op == "new" and isinstance(q, str):
                        cc = self.tree.get_class(t.args[0])
                        if cc is not None:
                            if q in self.tree.ancestors(cc):
                                x = TRUE
                            continue
                    x = bor(x, self.is_instance(t, q))
                r = bor(r, band(g, x))
            return one(r)
        if n in ("int", "list", "tuple", "iter") and len(a) == 1 and \
                not e.keywords:
            if n == "int":
                v = self.content(self.expr(a[0]))

                def toint(x):
                    if x is TRUE:
                        return ONE
                    if x is FALSE:
                        return ZERO
                    if x.op == "B":
                        return mk("gv", x, ONE, bnot(x), ZERO)
                    if x.op == "str":
                        return mk("ext", "int", x)
                    return x
                return self.lift(toint, v)
            return self.content(self.expr(a[0]))
        if n == "bool" and len(a) == 1:
            return one(self.cond(a[0]))
        if n in ("bytes", "bytearray"):
            if not a:
                return one(Bytes(b""))
            if len(a) == 1:
                v = self.content(self.expr(a[0]))

                def tob(x):
                    if x.op == "int":
                        return Bytes(bytes(x.args[0])) if \
                            x.args[0] < 4096 else mk("repeat",
                                                     Bytes(b"\0"), x)
                    if self.k(x) == "int" or x.op == "poly":
                        return mk("repeat", Bytes(b"\0"), x)
                    if x.op == "tuple" and all(
                            y.op == "int" and 0 <= y.args[0] < 256
                            for y in x.args):
                        return Bytes(bytes(y.args[0] for y in x.args))
                    return x
                return self.lift(tob, v)
        if n in ("list", "tuple") and not a:
            return one(mk("tuple"))
        if n == "dict" and len(a) == 1 and not e.keywords:
            t = self.ty(a[0])
            if t is not None and t[0] == "dict":
                return self.lift(self.copied, self.content(self.expr(a[0])))
        if n == "dict" and not a:
            prs = []
            for k in e.keywords:
                if k.arg is None:
                    prs.append(mk("pair", mk("star", self.term(
                        self.expr(k.value))), NONE))
                else:
                    prs.append(mk("pair", Str(k.arg),
                                  self.term(self.expr(k.value))))
            prs.sort(key=lambda p: p.args[0].dig)
            return one(mk("dict", *prs))
        if n in ("set", "frozenset"):
            if not a:
                return one(mk("set"))
            t = self.ty(a[0])
            if t is not None and t[0] == "set":
                return self.lift(self.copied, self.content(self.expr(a[0])))
            return self.lift(self.toset, self.content(self.expr(a[0])))
        if n == "abs" and len(a) == 1:
            return self.lift(lambda x: mk("abs", x) if x.op != "int" else
                             Int(abs(x.args[0])), self.expr(a[0]))
        if n == "divmod" and len(a) == 2:
            return self.lift(lambda x, y: mk("tuple", tm.floordiv(x, y),
                                             tm.mod(x, y)),
                             self.expr(a[0]), self.expr(a[1]))
        if n == "pow" and len(a) == 2:
            return self.lift(tm.power, self.expr(a[0]), self.expr(a[1]))
        if n in ("getattr",) and len(a) == 2 and isinstance(
                a[1], ast.Constant) and isinstance(a[1].value, str):
            return self.expr(ast.copy_location(ast.Attribute(
                value=a[0], attr=a[1].value, ctx=ast.Load()), e))
        if n in ("any", "all", "sum") and len(a) == 1:
            v = self.content(self.expr(a[0]))

            def red(x):
                if x.op == "tuple":
                    if n == "sum":
                        r = ZERO
                        for y in x.args:
                            r = tm.add(r, y)
                        return r
                    r = FALSE if n == "any" else TRUE
                    for y in x.args:
                        r = bor(r, truth(y)) if n == "any" else band(
                            r, truth(y))
                    return r
                if x.op == "map" and x.args[1].op == "tuple" and \
                        len(x.args[1].args) == 1:
                    y = x.args[1].args[0]
                    if n == "sum":
                        return mk("sum", x.args[0], y)
                    c = truth(y)
                    if n == "any":
                        return var(mk("exists", x.args[0], c)) \
                            if c is not FALSE else FALSE
                    return bnot(var(mk("exists", x.args[0], bnot(c)))) \
                        if c is not TRUE else TRUE
                return mk("ext", n, x)
            return self.lift(red, v)
        if n in ("sorted", "reversed") and a:
            args = self.args_of(e)
            return self.lift(lambda *xs: mk("sorted" if n == "sorted" else
                                            "reversed", *xs), *args)
        if n == "map" and len(a) == 2 and not e.keywords and isinstance(
                a[0], (ast.Name, ast.Attribute, ast.Lambda)):
            v = ast.Name(id="@map%d" % a[0].col_offset, ctx=ast.Store())
            x = ast.ListComp(elt=ast.Call(func=a[0], args=[ast.Name(
                id=v.id, ctx=ast.Load())], keywords=[]),
                generators=[ast.comprehension(target=v, iter=a[1], ifs=[],
                                              is_async=0)])
            ast.copy_location(x, e)
            ast.fix_missing_locations(x)
            return self.expr(x)
        if n in ("range", "enumerate", "zip", "map", "filter"):
            if n in ("range", "enumerate", "zip"):
                dom, bind = self.domain(e)
                d = self.depth
                v = self.term(bind(mk("idx", d)))
                return one(mk("map", dom, mk("tuple", v)))
        if n == "type" and len(a) == 1:
            v = self.expr(a[0])
            return self.lift(lambda x: mk("typeof", x)
                             if x.op != "new" else mk("class", x.args[0]), v)
        args = self.args_of(e)
        r = self.lift(lambda *xs: mk("ext", n, *xs), *args)
        self.note("builtin", e, name=n, args=args)
        if stmt or n in ("print", "open", "setattr", "exec", "eval",
                         "input"):
            for g, t in r:
                self.event(t, g)
        return r


def match_as_if(s):
    """The if-chain a match statement abbreviates, or []."""
    tmp = "@match"

    def subj():
        return ast.Name(id=tmp, ctx=ast.Load())

    def test(p, x):
        """(condition or None, assignments) of pattern p on expression x."""
        if isinstance(p, ast.MatchValue):
            return ast.Compare(left=x, ops=[ast.Eq()],
                               comparators=[p.value]), []
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(left=x, ops=[ast.Is()], comparators=[
                ast.Constant(value=p.value)]), []
        if isinstance(p, ast.MatchOr):
            cs = []
            for q in p.patterns:
                c, b = test(q, x)
                if b:
                    raise Unsupported
                if c is None:
                    return None, []
                cs.append(c)
            return ast.BoolOp(op=ast.Or(), values=cs), []
        if isinstance(p, ast.MatchAs):
            c, b = (None, []) if p.pattern is None else test(p.pattern, x)
            if p.name:
                b = b + [ast.Assign(targets=[ast.Name(
                    id=p.name, ctx=ast.Store())], value=x)]
            return c, b
        if isinstance(p, ast.MatchClass) and not p.patterns and \
                not p.kwd_patterns:
            return ast.Call(func=ast.Name(id="isinstance", ctx=ast.Load()),
                            args=[x, p.cls], keywords=[]), []
        if isinstance(p, ast.MatchSequence) and not any(
                isinstance(q, ast.MatchStar) for q in p.patterns) and \
                isinstance(s.subject, (ast.Tuple, ast.List)) and \
                len(s.subject.elts) == len(p.patterns):
            cs, bs = [], []
            for i, q in enumerate(p.patterns):
                c, b = test(q, ast.Subscript(
                    value=x, slice=ast.Constant(value=i), ctx=ast.Load()))
                if c is not None:
                    cs.append(c)
                bs += b
            if not cs:
                return None, bs
            return (cs[0] if len(cs) == 1 else
                    ast.BoolOp(op=ast.And(), values=cs)), bs
        raise Unsupported
    tail = []
    try:
        for c in reversed(s.cases):
            t, b = test(c.pattern, subj())
            body = list(c.body)
            if c.guard is not None:
                if b:
                    # the guard sees the captures
                    raise Unsupported
                t = c.guard if t is None else ast.BoolOp(
                    op=ast.And(), values=[t, c.guard])
            if t is None:
                tail = b + body
            else:
                tail = [ast.If(test=t, body=b + body, orelse=tail)]
    except Unsupported:
        return []
    out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                      value=s.subject)] + tail
    for x in out:
        ast.copy_location(x, s)
        ast.fix_missing_locations(x)
    return out


def leaves(body):
    """A break, continue or return of this body (not of nested functions)."""
    st = list(body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Break, ast.Continue, ast.Return)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


CLOSURES = {}
LAMBDAS = {}
FNS = {}


def has_call(e):
    return any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Yield))
               for x in ast.walk(e))


_ct = {}


def contains_term(t, x):
    if t is x:
        return True
    key = (t, x)
    r = _ct.get(key)
    if r is None:
        r = any(isinstance(a, T) and contains_term(a, x) for a in t.args)
        _ct[key] = r
    return r


_cl = {}


def contains_lv(t, depth):
    if t.op == "lv" and t.args[0] == depth:
        return True
    key = (t, depth)
    r = _cl.get(key)
    if r is None:
        r = any(isinstance(a, T) and contains_lv(a, depth) for a in t.args)
        _cl[key] = r
    return r
