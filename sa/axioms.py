"""Integer facts that hold between the comparisons two summaries make.

`a - b > 0`, `a - b + 1 > 0` and `a - b = 0` are three independent variables
to the decision diagrams.  When two definitions disagree, the combinations
that no integers produce are excluded and the disagreement is judged again.
"""
from itertools import combinations
from . import terms as tm
from . import faults
from .terms import T, TRUE, FALSE, Int, ONE, band, bor, bnot, bdd_vars

LIMIT = 60


def guards(s):
    """Every condition that occurs in a summary."""
    yield s.na
    yield from s.aborts.values()
    yield from s.events.values()
    todo = [s.ret] + list(s.heap.values())
    for l, h in s.kept.values():
        yield l
        todo.extend(h.values())
    seen = set()
    for gv in todo:
        for g, t in gv:
            yield g
            for x in tm.subterms(t):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "gv":
                    yield from x.args[::2]
                elif x.op == "B":
                    yield x


def atoms(*sums):
    out = set()
    done = set()
    for s in sums:
        for g in guards(s):
            if g in done:
                continue
            done.add(g)
            for v in bdd_vars(g):
                if v.op in ("gt0", "eq0", "zero"):
                    out.add(v)
    return out


def linear(v):
    """The non-constant monomials of the comparison."""
    d = tm.to_poly(v.args[0])
    return frozenset(m for m in d if m)


def literals(v):
    """[(condition, facts)]: polynomials >= 0 under the condition."""
    c = tm.var(v)
    out = [(c, faults.facts_of(c)), (bnot(c), faults.facts_of(bnot(c)))]
    return [(c, f) for c, f in out if f]


def negative(p):
    return tm.nonneg(tm.sub(Int(-1), p))


def impossible(lits):
    """Whether the facts of the literals contradict each other."""
    sums = [tm.ZERO]
    for _, fs in lits:
        sums = [tm.add(s, f) for s in sums for f in fs]
    return any(negative(s) for s in sums)


def theory(a, b):
    """A condition every integer assignment satisfies, or TRUE."""
    va, vb = atoms(a), atoms(b)
    if not (va ^ vb):
        return TRUE
    vs = va | vb
    new = va ^ vb
    mon = {}
    for v in new:
        for m in linear(v):
            mon[m] = True
    # comparisons about the quantities that only one side compares so
    near = sorted((v for v in vs if any(m in mon for m in linear(v))),
                  key=lambda v: v.dig)[:LIMIT]
    lits = [l for v in near for l in literals(v)]
    ax = TRUE
    for x, y in combinations(lits, 2):
        if band(x[0], y[0]) is not FALSE and impossible((x, y)):
            ax = band(ax, bnot(band(x[0], y[0])))
    if len(near) <= 14:
        for x, y, z in combinations(lits, 3):
            c = band(band(x[0], y[0]), z[0])
            if band(ax, c) is not FALSE and impossible((x, y, z)):
                ax = band(ax, bnot(c))
    # neighbours: x > -1 without x > 0 is x = 0
    for v in near:
        if v.op == "gt0":
            p = v.args[0]
            w = tm.gt0(tm.sub(p, ONE))
            if any(tm.var(x) is w for x in near):
                q = tm.sub(p, ONE)
                ax = band(ax, bor(bnot(tm.var(v)), bor(w, tm.eq0(q))))
    for v in near:
        if v.op == "eq0" or v.op == "zero":
            p = v.args[0]
            ax = band(ax, bor(tm.var(v), bor(tm.gt0(p),
                                             tm.gt0(tm.sub(Int(0), p)))))
    return ax
