"""Pairs reference functions with current functions and compares them."""
import ast

from . import evalr, modref, compare as cmpmod, terms as tm
from .project import Func, Class, Tree
from .terms import T


class Pairing:
    """ref: reviewed reference definitions; act: /repo's current tree."""

    def __init__(self, ref, act, infos=None):
        self.ref, self.act = ref, act
        self.rf = {f.qual: f for f in ref.functions()}
        self.af = {f.qual: f for f in act.functions()}
        self.infos = infos if infos is not None else modref.infer(
            ref, list(self.rf.values()))
        self.common = set()
        for q, f in self.rf.items():
            g = self.af.get(q)
            if g is not None and self.same_sig(f, g):
                self.common.add(q)
        self.opaque = self.common_tables()
        self.not_inlinable = set()
        self._ev = {}
        self._diff = {}
        self._forced = {}
        self.n_compared = 0
        self.n_escalated = 0
        self.unknown = []

    @staticmethod
    def same_sig(f, g):
        a, b = f.node.args, g.node.args
        return (len(a.posonlyargs) + len(a.args) == len(b.posonlyargs)
                + len(b.args) and len(a.kwonlyargs) == len(b.kwonlyargs)
                and bool(a.vararg) == bool(b.vararg)
                and bool(a.kwarg) == bool(b.kwarg))

    def common_tables(self):
        out = set()
        for m in self.ref.modules.values():
            am = self.act.modules.get(m.name)
            if am is None:
                continue
            for n, d in m.defs.items():
                if isinstance(d, tuple) and d[0] == "const" and isinstance(
                        d[1], ast.Dict) and n in am.defs:
                    out.add(f"{m.name}.{n}")
        return out

    def evs(self, removed=frozenset()):
        key = frozenset(removed)
        r = self._ev.get(key)
        if r is None:
            b = self.common - key
            r = (evalr.Evaluator(self.ref, b, self.infos,
                                 const_opaque=self.opaque),
                 evalr.Evaluator(self.act, b, self.infos,
                                 const_opaque=self.opaque))
            if len(self._ev) > 40:
                self._ev.clear()
            self._ev[key] = r
        return r

    def summaries(self, q, removed=frozenset()):
        e1, e2 = self.evs(removed)
        tm.new_budget(self.BUDGET)
        s1 = e1.summarize(self.rf[q])
        s2 = e2.summarize(self.af[q])
        return s1, s2

    BUDGET = 700_000

    def diff(self, q, removed=frozenset()):
        """List of differences; None when no verdict is possible."""
        key = (q, frozenset(removed))
        if key in self._diff:
            return self._diff[key]
        self.n_compared += 1
        try:
            s1, s2 = self.summaries(q, removed)
            d = cmpmod.compare(s1, s2)
            if d:
                # kinds learnt while evaluating one side may sharpen the
                # other: confirm on a second evaluation
                s1, s2 = self.summaries(q, removed)
                d = cmpmod.compare(s1, s2)
            if d and (len(s2.unsup) > len(s1.unsup)):
                d = None
        except (tm.BddBudget, RecursionError) as ex:
            self.unknown.append((q, type(ex).__name__))
            d = None
        self._forced[key] = (s1.forced | s2.forced) if d is not None \
            else set()
        self._diff[key] = d
        return d

    def same_behaviour(self, q1, q2):
        """Function q1 of the reference behaves as q2 of the tree."""
        f, g = self.rf.get(q1), self.af.get(q2)
        if f is None or g is None:
            return False
        e1, e2 = self.evs()
        for _ in range(2):
            try:
                tm.new_budget(self.BUDGET)
                d = cmpmod.compare(e1.summarize(f), e2.summarize(g))
            except (tm.BddBudget, RecursionError):
                return True
            if not d:
                return True
        return False

    # call graph by resolved references
    def callers(self):
        if hasattr(self, "_callers"):
            return self._callers
        out = {}
        valued = set()
        for tree, fs in ((self.ref, self.rf), (self.act, self.af)):
            for q, f in fs.items():
                cs, vs = refs(tree, f)
                for c in cs:
                    out.setdefault(c, set()).add(q)
                valued |= vs
            for m in tree.modules.values():
                for n, d in m.defs.items():
                    if isinstance(d, tuple) and d[0] == "const":
                        for x in ast.walk(d[1]):
                            if isinstance(x, (ast.Name, ast.Attribute)):
                                try:
                                    s = tree.resolve_expr(m, x)
                                except RecursionError:
                                    s = None
                                if s is not None and s.kind == "func":
                                    valued.add(s.qual)
        self._callers = out
        self._valued = valued
        return out

    def check(self, quals):
        """Compare functions; escalate mismatches to their callers.

        Returns {qual: [Diff]} of confirmed differences.
        """
        first = {}
        for q in quals:
            if q not in self.common:
                continue
            d = self.diff(q)
            if d:
                first[q] = d
        # functions the reference has and the tree lost / re-signed: they are
        # inlined into their callers on both sides, compare those instead
        lost = [q for q in quals if q in self.rf and q not in self.common]
        if lost:
            cal = self.callers()
            todo = set()
            seen = set()
            st = list(lost)
            while st:
                x = st.pop()
                for c in cal.get(x, ()):
                    if c in seen:
                        continue
                    seen.add(c)
                    if c in self.common:
                        todo.add(c)
                    else:
                        st.append(c)
            for c in sorted(todo):
                d = self.diff(c)
                if d:
                    first[c] = d
        if not first:
            return {}
        return self.escalate(first)

    DEPTH = 3

    def escalate(self, first):
        """A mismatch of a helper counts only if it is visible in a caller.

        All mismatched helpers are inlined on both sides; a mismatch is
        confirmed by a chain of callers that all still differ, up to an entry
        point (or DEPTH levels up).
        """
        cal = self.callers()
        base = frozenset(q for q in first if self.inlinable(q))

        def callers_of(q, removed):
            out, seen, st = set(), set(), [q]
            while st:
                x = st.pop()
                for c in cal.get(x, ()):
                    if c in seen:
                        continue
                    seen.add(c)
                    if c in removed or c not in self.common:
                        st.append(c)
                    else:
                        out.add(c)
            return sorted(out)

        def confirmed(q, removed, depth):
            cs = callers_of(q, removed)
            if not cs:
                return True
            for c in cs:
                d = self.diff(c, removed)
                self.n_escalated += 1
                if d is None:
                    return True      # the helper differs, caller undecided
                if not d and self._forced.get((c, frozenset(removed)),
                                              set()) & removed:
                    return True      # not inlinable at this call
                if d:
                    if depth >= self.DEPTH or not self.inlinable(c):
                        return True
                    if confirmed(c, removed | {c}, depth + 1):
                        return True
            return False

        out = {}
        for q, d in first.items():
            if q not in base:
                d2 = self.diff(q, base) if base else d
                if d2 is None:
                    d2 = d
                if d2:
                    out[q] = d2
            elif confirmed(q, base, 1):
                out[q] = d
        return out

    def inlinable(self, q):
        cal = self.callers()
        return q not in self._valued and bool(cal.get(q, set()) - {q})


def refs(tree, f):
    """(called function quals, quals used as values)."""
    called, valued = set(), set()
    funcs_called = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            funcs_called.add(id(x.func))
    bound = set(f.params)
    for x in ast.walk(f.node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            bound.add(x.id)
    for x in ast.walk(f.node):
        if isinstance(x, (ast.Name, ast.Attribute)):
            root = x
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(root, ast.Name):
                continue
            s = None
            if root.id in bound:
                if f.cls is not None and f.params and \
                        root.id == f.params[0] and isinstance(
                            x, ast.Attribute) and x.value is root:
                    m = tree.find_method(f.cls, x.attr)
                    if m is not None:
                        called.add(m.qual)
                continue
            s = tree.resolve_expr(f.mod, x)
            if s is not None and s.kind == "func":
                if id(x) in funcs_called:
                    called.add(s.qual)
                elif isinstance(getattr(x, "ctx", None), ast.Load):
                    valued.add(s.qual)
    return called, valued
