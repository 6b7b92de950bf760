"""Implicit exceptions: overflow, division by zero, missing index or key.

The evaluator reports every operation that can raise although no `raise` is
written: unsigned subtraction below zero, a result or a conversion beyond the
width of its class, division by zero, an index or key that is not there.  An
occurrence is *refuted* when the path condition at the operation excludes it,
with linear arithmetic over single comparisons.  What is not refuted on the
current tree has to be among what is not refuted in the reviewed definition
(the invariants that exclude those are part of the review).
"""
from . import terms as tm
from .terms import (T, mk, Int, TRUE, FALSE, ONE, band, bnot, restrict,
                    bdd_vars, nonneg, to_poly, from_poly)

SUPER = {"OverflowError": "ArithmeticError", "ZeroDivisionError":
         "ArithmeticError", "IndexError": "LookupError",
         "KeyError": "LookupError"}


def caught(exc, names):
    return exc in names or SUPER.get(exc) in names or \
        "Exception" in names or "BaseException" in names


# ------------------------------------------------------------ linear facts
def literal(c):
    """(atom, positive) when the condition is a single comparison."""
    if c.op == "B":
        v, lo, hi = c.args
        if lo is FALSE and hi is TRUE:
            return v, True
        if lo is TRUE and hi is FALSE:
            return v, False
    return None, None


def facts_of(c):
    """Polynomials that are >= 0 where `c` holds."""
    v, pos = literal(c)
    if v is None:
        return []
    if v.op == "gt0":
        p = v.args[0]
        return [tm.sub(p, ONE)] if pos else [tm.sub(Int(0), p)]
    if v.op in ("zero", "eq0"):
        x = v.args[0]
        if pos:
            return [x, tm.sub(Int(0), x)]
        if v.op == "zero" and nonneg(x):
            return [tm.sub(x, ONE)]
    return []


def relaxed(f, depth=0):
    """Weaker facts implied by f >= 0 through min, max, // and %."""
    out = [f]
    if depth > 2:
        return out
    d = to_poly(f)
    for m, c in d.items():
        if len(m) != 1:
            continue
        x = m[0]
        alts = []
        if c > 0:
            if x.op == "min":
                alts = list(x.args)
            elif x.op == "floordiv" and x.args[1].op == "int" and \
                    x.args[1].args[0] > 0 and nonneg(x.args[0]):
                n = x.args[1].args[0]
                alts = [x.args[0]]
                if c % n == 0:
                    rest = {k: v for k, v in d.items() if k != m}
                    g = tm.add(from_poly(rest),
                               tm.mul(Int(c // n), x.args[0]))
                    out += relaxed(g, depth + 1)
            elif x.op == "floordiv" and nonneg(x.args[0]):
                alts = [x.args[0]]
            elif x.op == "mod" and nonneg(x.args[0]):
                alts = [x.args[0], tm.sub(x.args[1], ONE)]
        else:
            if x.op == "max":
                alts = list(x.args)
        for a in alts:
            rest = {k: v for k, v in d.items() if k != m}
            g = tm.add(from_poly(rest), tm.mul(Int(c), a))
            out += relaxed(g, depth + 1)
    return out[:12]


BIG = 1 << 62


def upper(t, bounds):
    """An upper bound of a term, or None."""
    if t.op == "int":
        return t.args[0]
    b = bounds.get(t)
    o = None
    if t.op in ("len", "idx"):
        o = BIG
    elif t.op == "mod":
        u = upper(t.args[1], bounds)
        o = u - 1 if u is not None and u > 0 else None
    elif t.op == "floordiv" and t.args[1].op == "int" and \
            t.args[1].args[0] > 0:
        u = upper(t.args[0], bounds)
        o = u // t.args[1].args[0] if u is not None else None
    elif t.op == "min":
        us = [u for u in (upper(a, bounds) for a in t.args)
              if u is not None]
        o = min(us) if us else None
    elif t.op == "max":
        us = [upper(a, bounds) for a in t.args]
        o = max(us) if all(u is not None for u in us) else None
    elif t.op == "gv":
        us = [upper(a, bounds) for a in t.args[1::2]]
        o = max(us) if all(u is not None for u in us) else None
    elif t.op == "ext" and t.args[0] == "be2int" and \
            t.args[1].op == "slice" and t.args[1].args[3].op == "none":
        s = t.args[1]
        n = tm.sub(s.args[2], s.args[1]) if s.args[2].op != "end" else None
        if n is not None and n.op == "int" and 0 <= n.args[0] <= 64:
            o = (1 << (8 * n.args[0])) - 1
    elif t.op == "poly":
        o = 0
        for m, c in to_poly(t).items():
            if c < 0:
                if not all(nonneg(a) for a in m):
                    o = None
                    break
                continue
            k = c
            for a in m:
                u = upper(a, bounds)
                if u is None:
                    k = None
                    break
                k *= u
            if k is None:
                o = None
                break
            o += k
    if b is not None and (o is None or b < o):
        return b
    return o


def refuted(live, cond, facts, bounds):
    """No state satisfies `live`, `cond` and the facts (conservatively)."""
    fs = facts_of(cond)
    v, pos = literal(cond)
    if v is not None and v.op == "gt0":
        p = v.args[0] if pos else tm.sub(ONE, v.args[0])
        u = upper(p, bounds)
        if u is not None and u <= 0:
            return True
    rel = []
    for f in fs:
        rel += relaxed(f)
    for f in rel:
        # f >= 0 cannot hold
        if contradicts(f, []):
            return True
        for g in facts:
            if contradicts(f, [g]):
                return True
    if not rel:
        return False
    memo = 0
    for a in bdd_vars(live):
        memo += 1
        if memo > 60:
            break
        if a.op == "gt0":
            q = a.args[0]
            if any(nonneg(tm.sub(tm.sub(q, ONE), f)) for f in rel):
                live = restrict(live, a, True)
            elif any(nonneg(tm.sub(tm.sub(Int(0), q), f)) for f in rel):
                live = restrict(live, a, False)
        elif a.op in ("zero", "eq0"):
            q = a.args[0]
            if any(nonneg(tm.sub(tm.sub(q, ONE), f)) or
                   nonneg(tm.sub(tm.sub(Int(-1), q), f)) for f in rel):
                live = restrict(live, a, False)
        if live is FALSE:
            return True
    return live is FALSE


def contradicts(f, gs):
    """f >= 0 together with the facts gs >= 0 is impossible."""
    s = f
    for g in gs:
        s = tm.add(s, g)
    # s >= 0 is implied; impossible when -s-1 >= 0 always
    return nonneg(tm.sub(Int(-1), s))


# -------------------------------------------------------------- comparison
LOOPY = {"lv", "idx", "at", "loopout", "undef", "map", "each", "key",
         "until", "partial", "fold"}
_canon = {}


def canon(t):
    """Loop-local names do not matter."""
    r = _canon.get(t)
    if r is None:
        m = {}
        for x in tm.subterms(t):
            if x.op in ("lv", "idx"):
                m[x] = mk("wild")
        r = tm.subst(t, m) if m else t
        if len(_canon) > 200_000:
            _canon.clear()
        _canon[t] = r
    return r


def loopy(t):
    return any(x.op in LOOPY or x.op == "wild" for x in tm.subterms(t))


class Faults:
    """What one function can raise implicitly."""

    def __init__(self, items, n, loops=()):
        self.items = items
        self.loops = loops          # (exception, what) considered inside loops
        self.n = n
        self._keys = None

    def keys(self):
        if self._keys is None:
            d = {}
            for exc, what, node, c in self.items:
                k = canon(c) if not tm.is_bool(c) or c.op == "B" else c
                if c is TRUE:
                    k = mk("always", what)
                d.setdefault((exc, k), (what, node))
            self._keys = d
        return self._keys


def new_faults(ref, act):
    """Occurrences of `act` that no occurrence of `ref` covers."""
    rk, ak = ref.keys(), act.keys()
    out = []
    for (exc, k), (what, node) in sorted(
            ak.items(), key=lambda p: (p[0][0], p[0][1].dig)):
        if (exc, k) in rk:
            continue
        fs = facts_of(k)
        if fs and any(covers(fs, facts_of(q)) for (e, q) in rk
                      if e == exc):
            continue
        if loopy(k):
            if (exc, what) in ref.loops:
                continue
        out.append((exc, what, node, k))
    return out


def covers(fs, gs):
    """Every state with all fs >= 0 has all gs >= 0."""
    return bool(gs) and all(any(nonneg(tm.sub(g, f)) for f in fs)
                            for g in gs)
