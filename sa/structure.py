"""Structural comparison of classes, dispatch tables, defaults, decorators.

Everything is compared after name resolution: an alias, a re-ordered
assignment or a renamed helper makes no difference; a changed field, base
class, member value, table entry or default does.
"""
import ast

from . import terms as tm
from .digest import dump
from .project import Func, Class


class SDiff:
    __slots__ = ("kind", "owner", "mod", "line", "text")

    def __init__(self, kind, owner, mod, line, text):
        self.kind, self.owner = kind, owner
        self.mod, self.line, self.text = mod, line, text


def qual_dump(tree, mod, e):
    """Dump of an expression with names replaced by what they resolve to."""
    if e is None:
        return "None"
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        try:
            e2 = ast.parse(e.value, mode="eval").body
            return qual_dump(tree, mod, e2)
        except SyntaxError:
            return repr(e.value)
    if isinstance(e, (ast.Name, ast.Attribute)):
        s = tree.resolve_expr(mod, e)
        seen = 0
        while s is not None and s.kind == "const" and seen < 5 and \
                isinstance(s.node, (ast.Name, ast.Attribute, ast.Subscript)):
            # type alias
            if isinstance(s.node, ast.Subscript):
                return qual_dump(tree, s.mod, s.node)
            s = tree.resolve_expr(s.mod, s.node)
            seen += 1
        if s is not None and s.kind not in ("unknown",):
            q = s.qual
            if s.kind == "ext" and q.startswith("typing."):
                q = q[len("typing."):]
            q = {"List": "list", "Tuple": "tuple", "Dict": "dict",
                 "Set": "set"}.get(q, q)
            return q
    if isinstance(e, ast.Constant):
        return repr(e.value)
    if isinstance(e, ast.Subscript):
        base = qual_dump(tree, mod, e.value)
        el = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        args = [qual_dump(tree, mod, x) for x in el]
        if base == "Optional":
            base, args = "Union", sorted(args + ["None"])
        elif base == "Union":
            args = sorted(args)
        return f"{base}[{','.join(args)}]"
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        parts = []

        def fl(x):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                fl(x.left)
                fl(x.right)
            else:
                parts.append(qual_dump(tree, mod, x))
        fl(e)
        return f"Union[{','.join(sorted(parts))}]"
    return " ".join([type(e).__name__] + [
        qual_dump(tree, mod, c) if isinstance(c, ast.expr) else dump(c)
        for c in ast.iter_child_nodes(e)])


RECORD_BASES = ("Enum", "IntEnum")


def decorators(tree, c):
    out = set()
    for d in c.node.decorator_list:
        x = d.func if isinstance(d, ast.Call) else d
        kw = ""
        if isinstance(d, ast.Call):
            kw = ",".join(sorted(f"{k.arg}={dump(k.value)}"
                                 for k in d.keywords))
        out.add(qual_dump(tree, c.mod, x) + (f"({kw})" if kw else ""))
    return out


def is_encoded(c, deco):
    """A record whose field order is observable (RLP / positional)."""
    return any("slotted_freezable" in d or "dataclass" in d for d in deco)


def class_diffs(ref, act, ev_ref, ev_act, c, d):
    out = []

    def add(text, node=None):
        out.append(SDiff("class", c.qual, d.mod,
                         getattr(node or d.node, "lineno", 0), text))
    da, db = decorators(ref, c), decorators(act, d)
    frozen_a = {x for x in da if "freez" in x or "dataclass" in x}
    frozen_b = {x for x in db if "freez" in x or "dataclass" in x}
    for x in sorted(frozen_a - frozen_b):
        add(f"record is no longer declared with {x}")
    # ancestors known to the reference
    known = {k.qual for k in ref.classes()}
    aa = {q for q in ref.ancestors(c)}
    ab = {q for q in act.ancestors(d)}
    for q in sorted(aa - ab):
        if q == c.qual:
            continue
        add(f"no longer a kind of {q.rpartition('.')[2]}")
    for q in sorted(ab - aa):
        if q in known or not q.startswith("ethereum"):
            if q.startswith("typing.") or q in ("abc.ABC", "object"):
                continue
            add(f"is now a kind of {q.rpartition('.')[2]}")
    fa, fb = ref.all_fields(c), act.all_fields(d)
    if is_encoded(c, da):
        na, nb = list(fa), list(fb)
        if na != nb:
            miss = [n for n in na if n not in nb]
            extra = [n for n in nb if n not in na]
            if miss or extra:
                add(f"field set differs: missing {miss}, new {extra}")
            else:
                add(f"field order differs: {nb} instead of {na}")
        for n in na:
            if n in fb:
                ta = qual_dump(ref, fa[n][2].mod, fa[n][0])
                tb = qual_dump(act, fb[n][2].mod, fb[n][0])
                if ta != tb and "rlp" in record_use(c):
                    add(f"field {n} has type {tb} instead of {ta}",
                        fb[n][0])
    # defaults and members
    ca = {}
    for k in reversed(ref.mro(c)):
        for n, v in k.consts.items():
            ca[n] = (k, v)
    cb = {}
    for k in reversed(act.mro(d)):
        for n, v in k.consts.items():
            cb[n] = (k, v)
    for n in ca:
        if n not in cb:
            if n in fb and n in fa:
                add(f"field {n} lost its default")
            elif n not in fb:
                add(f"member {n} is gone")
            continue
        x = const_term(ev_ref, ca[n][0].mod, ca[n][1])
        y = const_term(ev_act, cb[n][0].mod, cb[n][1])
        if x is not None and y is not None and x is not y:
            add(f"{n} is {tm.show(y, 5)} instead of {tm.show(x, 5)}",
                cb[n][1])
    if any(b.endswith(".Enum") or b.endswith("IntEnum") for b in aa):
        for n in cb:
            if n not in ca:
                # a new member of an enumeration of byte values
                y = const_term(ev_act, cb[n][0].mod, cb[n][1])
                add(f"new member {n} = {tm.show(y, 4) if y else '?'}",
                    cb[n][1])
    return out


def record_use(c):
    """Record classes that travel in RLP."""
    n = c.node.name
    if n in ("Header", "Block", "Withdrawal", "Log", "Receipt", "Account",
             "Access", "Authorization") or "Transaction" in n and \
            not n.endswith("Error"):
        return {"rlp"}
    return set()


def const_term(ev, mod, e):
    try:
        return ev.const_expr(mod, e)
    except (tm.BddBudget, RecursionError):
        return None


def default_diffs(ref, act, ev_ref, ev_act, f, g):
    out = []
    pa = params_defaults(f.node)
    pb = params_defaults(g.node)
    if [n for n, _ in pa] != [n for n, _ in pb]:
        return out
    for (n, x), (_, y) in zip(pa, pb):
        if x is None and y is None:
            continue
        if x is None:
            continue            # a new default is not observable by callers
        if y is None:
            out.append(SDiff("default", f.qual, g.mod, g.node.lineno,
                             f"parameter {n} lost its default"))
            continue
        a = const_term(ev_ref, f.mod, x)
        b = const_term(ev_act, g.mod, y)
        if a is not None and b is not None and a is not b:
            out.append(SDiff(
                "default", f.qual, g.mod, y.lineno,
                f"default of {n} is {tm.show(b, 5)} instead of "
                f"{tm.show(a, 5)}"))
    return out


def params_defaults(node):
    a = node.args
    ps = a.posonlyargs + a.args
    df = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
    out = [(p.arg, d) for p, d in zip(ps, df)]
    out += [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)]
    return out


def deco_diffs(ref, act, f, g):
    """Decorators that change what a call does."""
    def names(t, x):
        out = set()
        for d in x.node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            out.add(qual_dump(t, x.mod, e))
        return out
    a, b = names(ref, f), names(act, g)
    out = []
    for d in sorted(a ^ b):
        n = d.rpartition(".")[2]
        if n in ("staticmethod", "classmethod", "property", "override",
                 "add_item", "contextmanager", "abstractmethod", "wraps"):
            if n in ("override",):
                continue
        elif "cache" not in n:
            continue
        w = "lost" if d in a else "gained"
        out.append(SDiff("decorator", f.qual, g.mod, g.node.lineno,
                         f"{w} decorator {n}"))
    return out


# ---------------------------------------------------------------- tables

def table_entries(tree, mod, e, ev, depth=0):
    """[(key term, value descriptor, line)] of a dict/tuple/list/set table."""
    if isinstance(e, (ast.Name, ast.Attribute)) and depth < 5:
        s = tree.resolve_expr(mod, e)
        if s is not None and s.kind == "const":
            return table_entries(tree, s.mod, s.node, ev, depth + 1)
        return None
    if isinstance(e, ast.Dict):
        out = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                sub = table_entries(tree, mod, v, ev, depth + 1)
                if sub is None:
                    return None
                out = [x for x in out if x[0] not in {y[0] for y in sub}]
                out.extend(sub)
                continue
            kt = const_term(ev, mod, k)
            out = [x for x in out if x[0] is not kt]
            out.append((kt, value_desc(tree, mod, v, ev), v.lineno))
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        a = table_entries(tree, mod, e.left, ev, depth + 1)
        b = table_entries(tree, mod, e.right, ev, depth + 1)
        if a is None or b is None:
            return None
        ks = {x[0] for x in b}
        return [x for x in a if x[0] not in ks] + b
    return None


def value_desc(tree, mod, v, ev):
    if isinstance(v, (ast.Name, ast.Attribute)):
        s = tree.resolve_expr(mod, v)
        if s is not None and s.kind in ("func", "class"):
            return (s.kind, s.qual)
    t = const_term(ev, mod, v)
    return ("term", t)


def tables(tree):
    """Module-level dict tables."""
    out = {}
    for m in tree.modules.values():
        for n in m.order:
            d = m.defs[n]
            if isinstance(d, tuple) and d[0] == "const" and \
                    isinstance(d[1], (ast.Dict,)):
                out[f"{m.name}.{n}"] = (m, d[1])
    return out


def table_diffs(pair, ev_ref, ev_act, match):
    ref, act = pair.ref, pair.act
    out = []
    n = 0
    for q, (m, e) in tables(ref).items():
        if not match(q):
            continue
        am = act.modules.get(m.name)
        name = q.rpartition(".")[2]
        if am is None:
            continue
        s = act.resolve(am, name)
        if s is None or s.kind != "const":
            out.append(SDiff("table", q, am, 0, "table is gone"))
            continue
        a = table_entries(ref, m, e, ev_ref)
        b = table_entries(act, s.mod, s.node, ev_act)
        if a is None or b is None:
            continue
        n += len(a)
        da = {k: v for k, v, _ in a}
        db = {k: (v, ln) for k, v, ln in b}
        for k in da:
            if k not in db:
                out.append(SDiff("table", q, am, s.node.lineno,
                                 f"entry {show(k)} is missing"))
                continue
            va, (vb, ln) = da[k], db[k]
            if va == vb:
                continue
            if va[0] == vb[0] == "func" and pair.same_behaviour(va[1], vb[1]):
                continue
            out.append(SDiff("table", q, s.mod, ln,
                             f"entry {show(k)} is {desc(vb)} instead of "
                             f"{desc(va)}"))
        for k, (v, ln) in db.items():
            if k not in da:
                out.append(SDiff("table", q, s.mod, ln,
                                 f"unexpected entry {show(k)}: {desc(v)}"))
    return out, n


def show(k):
    return tm.show(k, 5) if k is not None else "?"


def desc(v):
    if v[0] == "term":
        return show(v[1])
    return v[1].rpartition(".")[2]
