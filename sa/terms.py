"""Hash-consed value-number terms, boolean decision diagrams, polynomial
normal forms.

Every value the analysis talks about is a `T`: an interned node whose digest
depends only on its structure, so two analyses of different source text give
the *same object* for the same normal form.  Conditions are reduced ordered
BDDs over atomic condition terms; BDD nodes are `T`s as well, so a condition
can be part of a term.
"""
import hashlib
from math import gcd


class BddBudget(Exception):
    """The analysis of one function needs too many value numbers."""


BUDGET = [2_000_000]


class T:
    __slots__ = ("op", "args", "dig", "size", "kind_", "__weakref__")

    def __repr__(self):
        return show(self, 6)

    def __lt__(self, other):
        return self.dig < other.dig


_TAB = {}


def mk(op, *args):
    key = (op, args)
    t = _TAB.get(key)
    if t is not None:
        return t
    h = hashlib.blake2b(op.encode(), digest_size=12)
    size = 1
    for a in args:
        if isinstance(a, T):
            h.update(b"\1")
            h.update(a.dig)
            size += a.size
        else:
            h.update(b"\2" + type(a).__name__.encode() + b":"
                     + repr(a).encode() + b";")
    t = T()
    t.op = op
    t.args = args
    t.dig = h.digest()
    t.size = min(size, 1 << 40)
    t.kind_ = None
    _TAB[key] = t
    BUDGET[0] -= 1
    if BUDGET[0] < 0:
        raise BddBudget()
    return t


# ---------------------------------------------------------------- constants
def Int(n):
    return mk("int", int(n))


def Bytes(b):
    return mk("bytes", bytes(b))


def Str(s):
    return mk("str", s)


NONE = mk("none")
TRUE = mk("true")
FALSE = mk("false")


def Bool(b):
    return TRUE if b else FALSE


ZERO = Int(0)
ONE = Int(1)


# -------------------------------------------------------------------- BDDs
# node: mk("B", var, lo, hi); order: var.dig
_ite_memo = {}
_not_memo = {}


def new_budget(n):
    """Start the analysis of one function."""
    BUDGET[0] = n
    if len(_ite_memo) > 3_000_000:
        _ite_memo.clear()
        _con_memo.clear()


def is_bool(t):
    return t.op in ("B", "true", "false")


def _node(v, lo, hi):
    if lo is hi:
        return lo
    BUDGET[0] -= 1
    if BUDGET[0] < 0:
        raise BddBudget()
    return mk("B", v, lo, hi)


def var(atom):
    return _node(atom, FALSE, TRUE)


def bnot(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    r = _not_memo.get(f)
    if r is None:
        v, lo, hi = f.args
        r = _node(v, bnot(lo), bnot(hi))
        _not_memo[f] = r
        _not_memo[r] = f
    return r


def _cof(f, v):
    if f.op == "B" and f.args[0] is v:
        return f.args[1], f.args[2]
    return f, f


def ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    if g is FALSE and h is TRUE:
        return bnot(f)
    k = (f, g, h)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    v = f.args[0]
    if g.op == "B" and g.args[0].dig < v.dig:
        v = g.args[0]
    if h.op == "B" and h.args[0].dig < v.dig:
        v = h.args[0]
    f0, f1 = _cof(f, v)
    g0, g1 = _cof(g, v)
    h0, h1 = _cof(h, v)
    r = _node(v, ite(f0, g0, h0), ite(f1, g1, h1))
    _ite_memo[k] = r
    BUDGET[0] -= 1
    if BUDGET[0] < 0:
        raise BddBudget()
    return r


def band(f, g):
    if f is g:
        return f
    return ite(f, g, FALSE)


def bor(f, g):
    if f is g:
        return f
    return ite(f, TRUE, g)


def bimp(f, g):
    """f implies g (as a python bool)."""
    return band(f, bnot(g)) is FALSE


def bdd_vars(f):
    seen = set()
    out = set()
    st = [f]
    while st:
        x = st.pop()
        if x.op != "B" or x in seen:
            continue
        seen.add(x)
        out.add(x.args[0])
        st.append(x.args[1])
        st.append(x.args[2])
    return out


_con_memo = {}


def constrain(f, c):
    """Generalised cofactor: canonical representative of f on the care set."""
    if c is TRUE or f is TRUE or f is FALSE:
        return f
    if c is FALSE:
        return FALSE
    if f is c:
        return TRUE
    k = (f, c)
    r = _con_memo.get(k)
    if r is not None:
        return r
    v = f.args[0]
    if c.args[0].dig < v.dig:
        v = c.args[0]
    f0, f1 = _cof(f, v)
    c0, c1 = _cof(c, v)
    if c1 is FALSE:
        r = constrain(f0, c0)
    elif c0 is FALSE:
        r = constrain(f1, c1)
    else:
        r = _node(v, constrain(f0, c0), constrain(f1, c1))
    _con_memo[k] = r
    return r


def exists_var(f, v):
    """Existentially quantify atom v."""
    return bor(restrict(f, v, False), restrict(f, v, True))


def restrict(f, v, val, memo=None):
    if memo is None:
        memo = {}
    if f.op != "B" or f.args[0].dig > v.dig:
        return f
    if f in memo:
        return memo[f]
    w, lo, hi = f.args
    if w is v:
        r = hi if val else lo
    else:
        r = _node(w, restrict(lo, v, val, memo), restrict(hi, v, val, memo))
    memo[f] = r
    return r


# ------------------------------------------------------------- value kinds
# kind: 'int' | 'seq' | 'obj' | 'bool' | None
SEQ_OPS = {"bytes", "list", "tuple", "concat", "slice", "map", "str", "set",
           "dict", "sorted", "repeat", "fmt", "setadd"}
SIGNED_CALLS = set()
_KIND = {}


def set_kind(t, k):
    if k and t.kind_ is None and t.op not in ("int", "bytes", "str"):
        t.kind_ = k


def kind(t):
    if t.kind_ is not None:
        return t.kind_
    if t.op in ("int", "poly", "floordiv", "mod", "pow", "min", "max",
                "len", "sum", "idx"):
        return "int"
    if t.op in SEQ_OPS:
        return "seq"
    if is_bool(t):
        return "bool"
    if t.op == "new":
        return "obj"
    if t.op == "gv":
        ks = {kind(a) for a in t.args[1::2]}
        if len(ks) == 1:
            return ks.pop()
    return None


# ------------------------------------------------------------- polynomials
def to_poly(t):
    """dict: monomial (tuple of atoms, sorted by digest) -> coefficient."""
    if t.op == "int":
        return {(): t.args[0]} if t.args[0] else {}
    if t is TRUE:
        return {(): 1}
    if t is FALSE:
        return {}
    if t.op == "poly":
        d = {}
        it = iter(t.args)
        for n in it:
            k = next(it)
            ats = tuple(next(it) for _ in range(k))
            d[ats] = n
        return d
    return {(t,): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return Int(c)
        if len(m) == 1 and c == 1:
            return m[0]
    flat = []
    for m in sorted(d, key=lambda m: tuple(a.dig for a in m)):
        flat.append(d[m])
        flat.append(len(m))
        flat.extend(m)
    return mk("poly", *flat)


def p_add(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + k * c
    return {m: c for m, c in d.items() if c}


def p_mul(a, b):
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.dig))
            d[m] = d.get(m, 0) + c1 * c2
    return {m: c for m, c in d.items() if c}


def uncopy(t):
    """What a shallow copy holds."""
    return t.args[0] if t.op == "copy" else t


def concat(*ts):
    out = []
    for t in ts:
        parts = t.args if t.op == "concat" else (uncopy(t),)
        for p in parts:
            if p.op in ("bytes", "str") and p.args[0] in (b"", ""):
                continue
            if p.op in ("list", "tuple") and not p.args:
                continue
            if (out and p.op == out[-1].op and p.op in
                    ("bytes", "list", "tuple", "str")):
                if p.op in ("bytes", "str"):
                    out[-1] = mk(p.op, out[-1].args[0] + p.args[0])
                else:
                    out[-1] = mk(p.op, *(out[-1].args + p.args))
                continue
            out.append(p)
    if not out:
        return ts[0] if ts else mk("tuple")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def add(a, b):
    if kind(a) == "seq" or kind(b) == "seq":
        return concat(a, b)
    return from_poly(p_add(to_poly(a), to_poly(b)))


def sub(a, b):
    return from_poly(p_add(to_poly(a), to_poly(b), -1))


def mul(a, b):
    if a.op in SEQ_OPS or b.op in SEQ_OPS:
        s, n = (a, b) if a.op in SEQ_OPS else (b, a)
        if n.op == "int" and s.op in ("bytes", "str") and \
                n.args[0] * len(s.args[0]) <= 4096:
            return mk(s.op, s.args[0] * n.args[0])
        return mk("repeat", s, n)
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 64:
        x, y = sorted((a, b))
        return mk("mulop", x, y)
    return from_poly(p_mul(pa, pb))


def floordiv(a, b):
    if b.op == "int" and b.args[0] != 0:
        n = b.args[0]
        if a.op == "int":
            return Int(a.args[0] // n)
        if n == 1:
            return a
        pa = to_poly(a)
        if n > 0 and all(c % n == 0 for c in pa.values()):
            return from_poly({m: c // n for m, c in pa.items()})
        # split off the exactly divisible part
        if n > 0:
            ex = {m: c // n for m, c in pa.items() if c % n == 0}
            rest = {m: c for m, c in pa.items() if c % n != 0}
            if ex and rest:
                return from_poly(p_add(ex, to_poly(
                    floordiv(from_poly(rest), b))))
            # (x // k) // n == x // (k*n)
            if len(pa) == 1 and a.op == "floordiv" and \
                    a.args[1].op == "int" and a.args[1].args[0] > 0:
                return floordiv(a.args[0], Int(a.args[1].args[0] * n))
    return mk("floordiv", a, b)


def mod(a, b):
    if a.op in ("str", "bytes"):
        return mk("fmt", a, b)
    if b.op == "int" and b.args[0] > 0:
        n = b.args[0]
        if a.op == "int":
            return Int(a.args[0] % n)
        if n == 1:
            return ZERO
        pa = to_poly(a)
        red = {m: c % n for m, c in pa.items()}
        a2 = from_poly(red)
        if a2.op == "int":
            return Int(a2.args[0] % n)
        if a2.op == "mod" and a2.args[1] is b:
            return a2
        return mk("mod", a2, b)
    return mk("mod", a, b)


def power(a, b):
    if b.op == "int":
        n = b.args[0]
        if a.op == "int" and 0 <= n and \
                max(abs(a.args[0]).bit_length(), 1) * n <= 65536:
            return Int(a.args[0] ** n)
        if n == 0:
            return ONE
        if 1 <= n <= 4:
            r = a
            for _ in range(n - 1):
                r = mul(r, a)
            return r
    return mk("pow", a, b)


def is_pow2(n):
    return n > 0 and n & (n - 1) == 0


def bitop(op, a, b):
    if is_bool(a) and is_bool(b):
        if op == "&":
            return band(a, b)
        if op == "|":
            return bor(a, b)
        if op == "^":
            return ite(a, bnot(b), b)
    if a.op == "int" and b.op == "int":
        x, y = a.args[0], b.args[0]
        return Int({"&": x & y, "|": x | y, "^": x ^ y}[op])
    if op == "&":
        for x, y in ((a, b), (b, a)):
            if x.op == "int" and is_pow2(x.args[0] + 1):
                return mod(y, Int(x.args[0] + 1))
    parts = []
    for t in (a, b):
        parts.extend(t.args[1:] if t.op == "bit" and t.args[0] == op else [t])
    parts.sort()
    return mk("bit", op, *parts)


def lshift(a, b):
    if b.op == "int" and 0 <= b.args[0] <= 4096:
        return mul(a, Int(1 << b.args[0]))
    return mul(a, mk("pow", Int(2), b))


def rshift(a, b):
    if b.op == "int" and 0 <= b.args[0] <= 4096:
        return floordiv(a, Int(1 << b.args[0]))
    return floordiv(a, mk("pow", Int(2), b))


def union(*xs):
    """The set of the elements of all xs."""
    parts, added = set(), set()
    todo = list(xs)
    while todo:
        x = uncopy(todo.pop())
        if x.op == "setunion":
            todo.extend(x.args)
        elif x.op == "toset":
            todo.append(x.args[0])
        elif x.op == "set":
            added.update(x.args)
        elif x.op == "setadd":
            todo.append(x.args[0])
            added.update(x.args[1:])
        else:
            parts.add(x)
    if added or not parts:
        parts.add(mk("set", *sorted(added)))
    return mk("setunion", *sorted(parts))


def minmax(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    consts = [t.args[0] for t in out if t.op == "int"]
    rest = {t for t in out if t.op != "int"}
    res = sorted(rest)
    if consts:
        c = min(consts) if op == "min" else max(consts)
        if not res:
            return Int(c)
        if op == "max" and c == 0 and all(nonneg(t) for t in res):
            pass
        else:
            res.append(Int(c))
    # drop elements dominated through constant differences
    keep = []
    for i, t in enumerate(res):
        dominated = False
        for j, u in enumerate(res):
            if i == j:
                continue
            d = sub(t, u)
            if d.op == "int":
                n = d.args[0]
                if (op == "min" and n > 0) or (op == "max" and n < 0):
                    dominated = True
        if not dominated:
            keep.append(t)
    res = keep
    if len(res) == 1:
        return res[0]
    return mk(op, *sorted(res))


# ------------------------------------------------------------- comparisons
NONNEG_OPS = {"attr", "index", "len", "post", "ext", "call", "param", "idx",
              "ret", "floordiv", "mod", "pow", "m"}


def nonneg(t):
    if t.op == "int":
        return t.args[0] >= 0
    if t.op in ("call", "ext", "ret"):
        return "signed" not in str(t.args[0])
    if t.op in ("floordiv", "mod"):
        return nonneg(t.args[0])
    if t.op in ("min",):
        return all(nonneg(a) for a in t.args)
    if t.op in ("max",):
        return any(nonneg(a) for a in t.args)
    if t.op == "poly":
        return all(c >= 0 and all(nonneg(a) for a in m)
                   for m, c in to_poly(t).items())
    return t.op in NONNEG_OPS


def gt0(p):
    """BDD for polynomial term p > 0 over the integers."""
    d = to_poly(p)
    k = d.pop((), 0)
    if not d:
        return Bool(k > 0)
    g = 0
    for c in d.values():
        g = gcd(g, c)
    if g > 1:
        d = {m: c // g for m, c in d.items()}
        # g*q + k > 0  <=>  q > -k/g  <=> q - floor(-k/g) > 0
        k = -((-k) // g)
    lead = min(d, key=lambda m: tuple(a.dig for a in m))
    if d[lead] < 0:
        nd = {m: -c for m, c in d.items()}
        nd[()] = 1 - k
        return bnot(gt0(from_poly(nd)))
    if all(c > 0 and all(nonneg(a) for a in m) for m, c in d.items()):
        if k > 0:
            return TRUE
        if k == 0 and len(d) == 1:
            m = next(iter(d))
            if len(m) == 1:
                return bnot(eq0(m[0]))
    d[()] = k
    return var(mk("gt0", from_poly(d)))


def eq0(p):
    d = to_poly(p)
    k = d.pop((), 0)
    if not d:
        return Bool(k == 0)
    g = 0
    for c in d.values():
        g = gcd(g, c)
    if k % g:
        return FALSE
    d = {m: c // g for m, c in d.items()}
    k //= g
    lead = min(d, key=lambda m: tuple(a.dig for a in m))
    if d[lead] < 0:
        d = {m: -c for m, c in d.items()}
        k = -k
    if all(c > 0 and all(nonneg(a) for a in m) for m, c in d.items()):
        if k > 0:
            return FALSE
    if k == 0 and len(d) == 1:
        m = next(iter(d))
        if len(m) == 1 and d[m] == 1:
            x = m[0]
            while x.op == "len":
                x = x.args[0]
            if is_bool(x):
                return bnot(x)
            if x.op == "gv":
                r = FALSE
                for i in range(0, len(x.args), 2):
                    r = bor(r, band(x.args[i], eq0(x.args[i + 1])))
                return r
            if x.op in ("bytes", "str"):
                return Bool(len(x.args[0]) == 0)
            if x.op in ("list", "tuple", "dict", "set"):
                return Bool(len(x.args) == 0)
            return var(mk("zero", x))
    d[()] = k
    return var(mk("eq0", from_poly(d)))


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return bnot(lt(b, a))


NONINT = {"bytes", "str", "none", "list", "tuple", "dict", "set", "concat",
          "fn", "class", "global", "new", "map", "true", "false", "slice"}


def eq(a, b):
    if a is b:
        return TRUE
    if is_bool(a) and is_bool(b):
        return ite(a, b, bnot(b))
    if a.op == "none" or b.op == "none":
        x = b if a.op == "none" else a
        return isnone(x)
    for x, y in ((a, b), (b, a)):
        if x.op in ("bytes", "str") and len(x.args[0]) == 0:
            return eq0(mk("len", y)) if y.op != "len" else FALSE
        if x.op in ("list", "tuple", "dict", "set") and not x.args:
            return eq0(mk("len", y))
        if x is TRUE:
            return truth(y)
        if x is FALSE:
            return bnot(truth(y))
    if a.op in ("int", "bytes", "str") and b.op in ("int", "bytes", "str"):
        return Bool(a.op == b.op and a.args == b.args)
    if a.op in NONINT or b.op in NONINT or kind(a) == "seq" \
            or kind(b) == "seq":
        if a.op in ("tuple", "list") and b.op == a.op:
            if len(a.args) != len(b.args):
                return FALSE
            r = TRUE
            for x, y in zip(a.args, b.args):
                r = band(r, eq(x, y))
            return r
        for x, y in ((a, b), (b, a)):
            if x.op == "bytes" and len(x.args[0]) <= 4 and \
                    y.op == "slice" and y.args[3].op == "none" and \
                    y.args[1].op == "int" and y.args[2].op == "int" and \
                    y.args[2].args[0] - y.args[1].args[0] == \
                    len(x.args[0]) and y.args[1].args[0] >= 0:
                z, lo = y.args[0], y.args[1].args[0]
                r = gt0(sub(tlen(z), Int(lo + len(x.args[0]) - 1)))
                for i, v in enumerate(x.args[0]):
                    r = band(r, eq0(sub(mk("index", z, Int(lo + i)),
                                        Int(v))))
                return r
        x, y = sorted((a, b))
        return var(mk("eq", x, y))
    return eq0(sub(a, b))


NONNULL = set()       # values of containers that hold no None


def isnone(x):
    if x.op == "none":
        return TRUE
    if x in NONNULL:
        return FALSE
    if x.op in ("int", "bytes", "str", "list", "tuple", "dict", "set", "new",
                "concat", "poly", "map", "fn") or is_bool(x):
        return FALSE
    if x.op == "gv":
        r = FALSE
        for i in range(0, len(x.args), 2):
            r = bor(r, band(x.args[i], isnone(x.args[i + 1])))
        return r
    return var(mk("isnone", x))


def truth(t):
    if is_bool(t):
        return t
    if t.op == "none":
        return FALSE
    if t.op in ("new", "fn", "class"):
        return TRUE
    if kind(t) == "obj":
        return bnot(isnone(t))
    return bnot(eq0(t))


def contains(x, s):
    s = uncopy(s)
    if s.op in ("tuple", "list", "set") and len(s.args) <= 16:
        r = FALSE
        for y in s.args:
            r = bor(r, eq(x, y))
        return r
    if s.op == "setadd":
        r = contains(x, s.args[0])
        for y in s.args[1:]:
            r = bor(r, eq(x, y))
        return r
    if s.op == "m" and s.args[0] == "keys" and len(s.args) == 2:
        return contains(x, s.args[1])
    return var(mk("in", x, s))


def tlen(t):
    t = uncopy(t)
    if t.op in ("bytes", "str"):
        return Int(len(t.args[0]))
    if t.op in ("list", "tuple", "dict", "set") and not any(
            isinstance(a, T) and a.op == "star" for a in t.args):
        return Int(len(t.args))
    if t.op == "concat":
        r = ZERO
        for p in t.args:
            r = from_poly(p_add(to_poly(r), to_poly(tlen(p))))
        return r
    if t.op == "map":      # map over domain without filter
        return t.args[0] if t.args[0].op != "dom" else mk("len", t)
    if t.op == "repeat":
        return mul(tlen(t.args[0]), t.args[1])
    return mk("len", t)


# ------------------------------------------------------------------ output
def show(t, depth=8):
    if not isinstance(t, T):
        return repr(t)
    if depth < 0:
        return "…"
    o = t.op
    d = depth - 1
    if o == "int":
        n = t.args[0]
        return hex(n) if abs(n) > 1 << 64 else str(n)
    if o in ("bytes", "str"):
        return repr(t.args[0])
    if o == "true":
        return "True"
    if o == "false":
        return "False"
    if o == "none":
        return "None"
    if o == "param":
        return "$" + str(t.args[0])
    if o == "attr":
        return f"{show(t.args[0], depth)}.{t.args[1]}"
    if o == "fn" and isinstance(t.args[0], str):
        return t.args[0].rsplit(".", 1)[-1]
    if o in ("call", "ret") and isinstance(t.args[0], str):
        nm = t.args[0].rsplit(".", 1)[-1]
        return f"{nm}({', '.join(show(a, d) for a in t.args[1:])})"
    if o == "ext":
        return f"{t.args[0]}({', '.join(show(a, d) for a in t.args[1:])})"
    if o == "m":
        return (f"{show(t.args[1], d)}.{t.args[0]}("
                f"{', '.join(show(a, d) for a in t.args[2:])})")
    if o == "poly":
        out = []
        for m, c in to_poly(t).items():
            s = "*".join(show(a, d) for a in m)
            if c == 1 and s:
                out.append(s)
            else:
                out.append(f"{c}" + (f"*{s}" if s else ""))
        return "(" + " + ".join(out) + ")"
    if o == "gt0":
        return f"{show(t.args[0], d)} > 0"
    if o == "eq0":
        return f"{show(t.args[0], d)} == 0"
    if o == "zero":
        return f"{show(t.args[0], d)} is zero/empty"
    if o == "isnone":
        return f"{show(t.args[0], d)} is None"
    if o == "eq":
        return f"{show(t.args[0], d)} == {show(t.args[1], d)}"
    if o == "in":
        return f"{show(t.args[0], d)} in {show(t.args[1], d)}"
    if o == "B":
        return "[" + " | ".join(bdd_cubes(t, d)) + "]"
    if o == "index":
        return f"{show(t.args[0], d)}[{show(t.args[1], d)}]"
    return f"{o}({', '.join(show(a, d) for a in t.args)})"


def bdd_cubes(f, depth=6, limit=6):
    out = []

    def rec(n, lits):
        if len(out) >= limit:
            return
        if n is TRUE:
            out.append(" & ".join(lits) or "True")
            return
        if n is FALSE:
            return
        v, lo, hi = n.args
        rec(hi, lits + [show(v, depth)])
        rec(lo, lits + ["not(" + show(v, depth) + ")"])
    rec(f, [])
    if len(out) >= limit:
        out.append("...")
    return out


def subterms(t, seen=None):
    """All distinct subterms."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return seen


def subst(t, m, memo=None):
    """Replace subterms and renormalise."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    if not any(isinstance(a, T) for a in t.args):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "B":
        v = t.args[0]
        nv = subst(v, m, memo)
        lo, hi = subst(t.args[1], m, memo), subst(t.args[2], m, memo)
        c = var(v) if nv is v else _recond(v, nv)
        r = ite(c, hi, lo)
    elif op == "poly":
        r = ZERO
        for mon, k in to_poly(t).items():
            p = Int(k)
            for a in mon:
                p = mul(p, subst(a, m, memo))
            r = add(r, p)
    else:
        xs = [subst(a, m, memo) if isinstance(a, T) else a for a in t.args]
        if all(x is y for x, y in zip(xs, t.args)):
            r = t
        elif op in ("gt0", "eq0", "zero", "isnone", "in", "eq"):
            r = mk(op, *xs)
        elif op == "len":
            r = tlen(xs[0])
        elif op == "concat":
            r = concat(*xs)
        elif op == "floordiv":
            r = floordiv(*xs)
        elif op == "mod":
            r = mod(*xs)
        elif op == "gv":
            d = {}
            for i in range(0, len(xs), 2):
                if xs[i] is not FALSE or t.args[i] is FALSE:
                    d[xs[i + 1]] = bor(d.get(xs[i + 1], FALSE), xs[i])
            if len(d) == 1:
                r = next(iter(d))
            elif not d:
                r = t
            else:
                fl = []
                for u in sorted(d, key=lambda u: u.dig):
                    fl += [d[u], u]
                r = mk("gv", *fl)
        else:
            r = mk(op, *xs)
    memo[t] = r
    return r


def _recond(v, nv):
    if is_bool(nv):
        return nv
    if v.op == "gt0":
        return gt0(nv.args[0]) if nv.op == "gt0" else truth(nv)
    if v.op == "eq0":
        return eq0(nv.args[0])
    if v.op == "zero":
        return bnot(truth(nv.args[0]))
    if v.op == "isnone":
        return isnone(nv.args[0])
    if v.op == "in":
        return contains(*nv.args)
    if v.op == "eq":
        return eq(*nv.args)
    return var(nv)
