"""Which exceptions leave a frame, a block and the recursion limit."""
import ast

from . import rule
from .errors import exc_class, is_builtin_exc
from .. import driver, structure, terms as tm
from ..project import FORKS, AnalysisBroken
from .purity import locals_of

BENIGN = {"AssertionError", "NotImplementedError"}


class MayRaise:
    """Explicitly raised exception classes that leave each function.

    The call graph has an edge for every reference to a function, so calls
    through tables, partials and callbacks are included.
    """

    def __init__(self, tree):
        self.tree = tree
        self.site = {}
        self.out = {}
        self._tab = {}
        fns = {f.qual: f for f in tree.functions()}
        self.fns = fns
        self.items = {q: self.scan(f) for q, f in fns.items()}
        users = {}
        for q, its in self.items.items():
            self.out[q] = {}
            for it in its:
                if it[0] == "call":
                    users.setdefault(it[1], set()).add(q)
        work = set(fns)
        while work:
            q = work.pop()
            new = self.eval(q)
            if set(new) - set(self.out[q]):
                for k, v in new.items():
                    self.out[q].setdefault(k, v)
                work |= users.get(q, set())

    def eval(self, q):
        r = {}
        for it in self.items[q]:
            if it[0] == "raise":
                cand = {it[1]: ((q, it[2]),)}
            else:
                cand = {c: ((q, it[2]),) + p
                        for c, p in self.out.get(it[1], {}).items()}
            for c, p in cand.items():
                if c not in r and not any(
                        self.sub(c, h) for hs in it[3] for h in hs):
                    r[c] = p
        return r

    def sub(self, c, h):
        if c == h or h in ("Exception", "BaseException"):
            return True
        s = self.tree.resolve_dotted(c) if "." in c else None
        if s is not None and s.kind == "class":
            return h in self.tree.ancestors(s.node)
        if is_builtin_exc(c) and is_builtin_exc(h):
            import builtins
            return issubclass(getattr(builtins, c), getattr(builtins, h))
        return False

    def table_funcs(self, mod, node):
        k = id(node)
        if k not in self._tab:
            out = set()
            for x in ast.walk(node):
                if isinstance(x, (ast.Name, ast.Attribute)):
                    s = self.tree.resolve_expr(mod, x)
                    if s is not None and s.kind == "func":
                        out.add(s.qual)
            self._tab[k] = out
        return self._tab[k]

    def scan(self, fn):
        items = []
        tree, mod = self.tree, fn.mod
        loc = locals_of(fn.node)
        called, valued = driver.refs(tree, fn)

        def res(e):
            r = e
            while isinstance(r, ast.Attribute):
                r = r.value
            if not isinstance(r, ast.Name) or r.id in loc:
                return None
            return tree.resolve_expr(mod, e)

        def visit(n, guards, caught, up=None):
            if isinstance(n, ast.Try):
                hs = []
                for h in n.handlers:
                    hs += self.handler_types(fn, h)
                for s in n.body:
                    visit(s, guards + (tuple(hs),), caught)
                for s in n.orelse + n.finalbody:
                    visit(s, guards, caught)
                for h in n.handlers:
                    for s in h.body:
                        visit(s, guards, self.handler_types(fn, h))
                return
            if isinstance(n, ast.Raise):
                if n.exc is None:
                    for c in caught:
                        items.append(("raise", c, n, guards))
                else:
                    e = n.exc
                    t = e.func if isinstance(e, ast.Call) else e
                    s = res(t)
                    if s is not None and s.kind in ("class", "builtin",
                                                    "ext"):
                        q = s.node.qual if s.kind == "class" else s.qual
                        items.append(("raise", q, n, guards))
                    elif s is not None and s.kind == "func":
                        pass
            if isinstance(n, (ast.Name, ast.Attribute)):
                s = res(n)
                if s is not None and s.kind == "func":
                    items.append(("call", s.qual, n, guards))
                elif s is not None and s.kind == "const" and \
                        s.node is not None and isinstance(
                            getattr(s, "node", None), ast.AST) and \
                        not keys_only(n, up):
                    for q in self.table_funcs(s.mod, s.node):
                        items.append(("call", q, n, guards))
                elif s is not None and s.kind == "class":
                    m = tree.find_method(s.node, "__init__")
                    if m is not None:
                        items.append(("call", m.qual, n, guards))
                elif s is None and isinstance(n, ast.Attribute) and \
                        isinstance(n.value, ast.Name) and \
                        fn.cls is not None and fn.params and \
                        n.value.id == fn.params[0]:
                    m = tree.find_method(fn.cls, n.attr)
                    if m is not None:
                        items.append(("call", m.qual, n, guards))
            for c in ast.iter_child_nodes(n):
                if isinstance(n, ast.FunctionDef) and c in \
                        n.decorator_list:
                    continue
                visit(c, guards, caught, n)

        for s in fn.node.body:
            visit(s, (), [])
        return items

    def handler_types(self, fn, h):
        if h.type is None:
            return ["BaseException"]
        el = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in el:
            s = self.tree.resolve_expr(fn.mod, e)
            if s is None:
                out.append("BaseException")
            elif s.kind == "class":
                out.append(s.node.qual)
            else:
                out.append(s.qual)
        return out


def keys_only(n, up):
    """The use of a table does not reach its values."""
    if isinstance(up, ast.Compare):
        return True
    if isinstance(up, ast.Attribute):
        return up.attr == "keys"
    return isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and \
        up.func.id in ("len", "set", "list", "tuple", "sorted", "iter",
                       "frozenset", "any", "all")


def analyses(ctx):
    if not hasattr(ctx, "_mr"):
        ctx._mr = (MayRaise(ctx.ref), MayRaise(ctx.act))
    return ctx._mr


def escape_rule(ctx, entries, rulename, what, allowed):
    """Explicit exceptions leaving the entries stay within the reviewed set
    or the allowed families."""
    out = []
    ref, act = analyses(ctx)
    n = 0
    for q in entries:
        if q not in act.out:
            continue
        have = set(ref.out.get(q, {}))
        for c, path in sorted(act.out[q].items()):
            n += 1
            if c in have or c.rpartition(".")[2] in BENIGN:
                continue
            if any(act.sub(c, a) for a in allowed(q)):
                continue
            if any(act.sub(c, h) and h not in ("Exception", "BaseException")
                   for h in have):
                continue
            fq, node = path[-1]
            f = act.fns[fq]
            chain = " -> ".join(x for x, _ in path)
            out.append(ctx.finding(
                rulename, fq, f.mod, node,
                f"{c.rpartition('.')[2]} leaves {what} ({chain})"))
    return out, n


@rule("C12")
def frame_escape(ctx):
    """Only exceptional halts and reverts can end a frame."""
    ents = [f"ethereum.{f}.vm.interpreter.{n}" for f in FORKS for n in
            ("execute_code", "process_message", "process_create_message",
             "process_message_call")]
    ref, act = analyses(ctx)
    out, n = escape_rule(ctx, ents, "frame-escape", "the frame",
                         lambda q: ())
    ctx.count("frame_entry_points", sum(e in act.out for e in ents))
    ctx.count("escaping_exceptions_checked", n)
    # what a handler raises is caught by execute_code: count the sites
    from .order import entry_points
    sites = 0
    for q, (fn, label) in entry_points(ctx).items():
        f = q.split(".")[1]
        halts = (f"ethereum.{f}.vm.exceptions.ExceptionalHalt",
                 f"ethereum.{f}.vm.exceptions.Revert")
        rf = ref.out.get(q, {})
        for c, path in act.out.get(q, {}).items():
            sites += 1
            if c in rf or c.rpartition(".")[2] in BENIGN or any(
                    act.sub(c, h) for h in halts):
                continue
            fq, node = path[-1]
            out.append(ctx.finding(
                "frame-escape", fq, act.fns[fq].mod, node,
                f"{c} is raised inside {label} but is neither an "
                "exceptional halt nor a revert of this fork"))
    ctx.count("handler_exception_classes", sites)
    return out


@rule("C01", "C03")
def block_escape(ctx):
    """Rejection is always the documented family of exceptions."""
    ents = [f"ethereum.{f}.fork.{n}" for f in FORKS for n in
            ("state_transition", "validate_header", "apply_body",
             "process_transaction")]
    out, n = escape_rule(
        ctx, ents, "block-escape", "block processing",
        lambda q: ("ethereum.exceptions.InvalidBlock",
                   "ethereum.exceptions.InvalidTransaction"))
    ctx.count("escaping_exceptions_checked", n)
    return out


@rule("C12")
def recursion_limit(ctx):
    """Importing the package makes room for 1024 nested frames."""
    m = ctx.act.modules.get("ethereum")
    if m is None:
        raise AnalysisBroken("no package ethereum")
    ev = ctx.plain_ev()
    best = None
    n = 0
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Call):
            s = ctx.act.resolve_expr(m, x.func)
            if s is not None and s.qual == "sys.setrecursionlimit" and x.args:
                n += 1
                for v in limits(ctx, m, ev, x.args[0]):
                    best = v if best is None else max(best, v)
    if n == 0:
        # set elsewhere in the package, or not at all
        for f in ctx.act.functions("ethereum"):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call):
                    s = ctx.act.resolve_expr(f.mod, x.func)
                    if s is not None and s.qual == "sys.setrecursionlimit":
                        ctx.notes.append("recursion limit set in "
                                         + f.qual)
                        return []
        return [ctx.finding("recursion-limit", "ethereum", m, 0,
                            "the recursion limit is never raised")]
    ctx.count("recursion_limit_sites", n)
    if best is not None and best < 1024 * 12:
        return [ctx.finding("recursion-limit", "ethereum", m, 0,
                            f"recursion limit {best} is below 12 Python "
                            "frames for each of 1024 calls")]
    return []


def limits(ctx, m, ev, e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == "max":
        for a in e.args:
            yield from limits(ctx, m, ev, a)
        return
    t = structure.const_term(ev, m, e)
    if t is not None and t.op == "int":
        yield t.args[0]
