"""Semantic comparison of two function summaries."""
from . import terms as tm
from . import axioms
from . import faults
from .terms import TRUE, FALSE, band, bor, bnot, bdd_vars, T, show


class Diff:
    __slots__ = ("comp", "key", "text", "ref", "act")

    def __init__(self, comp, key, text, ref=None, act=None):
        self.comp, self.key, self.text = comp, key, text
        self.ref, self.act = ref, act

    def __repr__(self):
        return f"{self.comp}: {self.text}"


def gvdict(gv):
    d = {}
    for g, t in gv:
        d[t] = bor(d.get(t, FALSE), g)
    return d


def gv_equal(a, b, care):
    """None if equal on the care set, else (term, guard_a, guard_b)."""
    if a == b:
        return None
    da, db = gvdict(a), gvdict(b)
    for t in set(da) | set(db):
        ga = band(da.get(t, FALSE), care)
        gb = band(db.get(t, FALSE), care)
        if ga is not gb:
            # booleans: compare as conditions
            if all(tm.is_bool(x) for x in list(da) + list(db)):
                ca = FALSE
                for x, g in da.items():
                    ca = bor(ca, band(g, x))
                cb = FALSE
                for x, g in db.items():
                    cb = bor(cb, band(g, x))
                if band(ca, care) is band(cb, care):
                    return None
            if struct_equal(a, b, care) or split_equal(
                    [(g, settle(t)) for g, t in a],
                    [(g, settle(t)) for g, t in b], care):
                return None
            return t, ga, gb
    return None


def flat(gv, care):
    d = {}
    st = [(g, t) for g, t in gv]
    while st:
        g, t = st.pop()
        g = band(g, care)
        if g is FALSE:
            continue
        if t.op == "gv":
            for i in range(0, len(t.args), 2):
                st.append((band(g, t.args[i]), t.args[i + 1]))
        else:
            d[t] = bor(d.get(t, FALSE), g)
    return d


SHAPED = frozenset(["poly"])


def plain(t):
    """The arguments of a term that say what is called on what."""
    return [a for a in t.args if not (isinstance(a, T) and a.op == "ctx")]


def context(t):
    return {a.args[0]: a.args[-1] for a in t.args
            if isinstance(a, T) and a.op == "ctx" and len(a.args) == 2}


def initial(t, path):
    """What an argument of a call holds at `path` when nothing wrote it."""
    parts = path.split(".")
    args = t.args[1:] if t.op == "call" else ()
    if not parts[0].isdigit() or int(parts[0]) >= len(args):
        return None
    o = args[int(parts[0])]
    if o.op in ("ctx", "gv", "W"):
        return None
    for a in parts[1:]:
        if a != "*":
            o = tm.mk("attr", o, a)
    return o


def shape(t):
    if t.op == "call" and any(isinstance(a, T) and a.op == "ctx" and
                              len(a.args) == 2 for a in t.args):
        return (t.op,) + tuple(a if not isinstance(a, T) else None
                               for a in plain(t))
    if t.op == "poly":
        return ("poly",) + tuple(a if not isinstance(a, T) else None
                                 for a in t.args)
    return (t.op,) + tuple(a if not isinstance(a, T) else None
                           for a in t.args)


def struct_equal(a, b, care, depth=0):
    """Equality up to pushing case distinctions through constructors."""
    da, db = flat(a, care), flat(b, care)
    for t in list(da):
        if t in db and da[t] is db[t]:
            del da[t], db[t]
    if not da and not db:
        return True
    if depth > 14:
        return False
    if all(tm.is_bool(x) for x in list(da) + list(db)):
        ca = cb = FALSE
        for x, g in da.items():
            ca = bor(ca, band(g, x))
        for x, g in db.items():
            cb = bor(cb, band(g, x))
        if ca is cb:
            return True
        return False
    sa, sb = {}, {}
    for d, s in ((da, sa), (db, sb)):
        for t, g in d.items():
            if t.op in ("B",) or not t.args:
                return False
            s.setdefault(shape(t), []).append((g, t))
    if set(sa) != set(sb):
        return False
    for k in sa:
        ga = gb = FALSE
        for g, _ in sa[k]:
            ga = bor(ga, g)
        for g, _ in sb[k]:
            gb = bor(gb, g)
        if ga is not gb:
            return False
        la = [(g, t, plain(t) if t.op == "call" else t.args)
              for g, t in sa[k]]
        lb = [(g, t, plain(t) if t.op == "call" else t.args)
              for g, t in sb[k]]
        for i in range(len(k) - 1):
            if k[i + 1] is None:
                if not struct_equal(
                        [(g, p[i]) for g, t, p in la],
                        [(g, p[i]) for g, t, p in lb], ga, depth + 1):
                    return False
        if k[0] == "call":
            xa = [(g, t, context(t)) for g, t, _ in la]
            xb = [(g, t, context(t)) for g, t, _ in lb]
            for path in sorted({p for _, _, c in xa + xb for p in c}):
                va = [(g, c.get(path) or initial(t, path)) for g, t, c in xa]
                vb = [(g, c.get(path) or initial(t, path)) for g, t, c in xb]
                if any(v is None for _, v in va + vb) or \
                        not struct_equal(va, vb, ga, depth + 1):
                    return False
    return True


def settle(t):
    """Drop what a call's context says when it says nothing new."""
    for _ in range(40):
        m = {}
        for x in tm.subterms(t):
            if x.op != "call":
                continue
            c = context(x)
            if c and any(v is initial(x, p) for p, v in c.items()):
                m[x] = tm.mk("call", *[
                    a for a in x.args if not (
                        isinstance(a, T) and a.op == "ctx" and
                        len(a.args) == 2 and
                        a.args[1] is initial(x, a.args[0]))])
        if not m:
            return t
        inner = {x: y for x, y in m.items() if not any(
            z in m for z in tm.subterms(x) if z is not x)}
        t = tm.subst(t, inner)
    return t


def pick(t, care):
    """Resolve the minima and maxima whose order `care` decides."""
    m = {}
    for x in tm.subterms(t):
        if x.op in ("min", "max") and len(x.args) == 2:
            for p, q in (x.args, x.args[::-1]):
                c = tm.gt0(tm.sub(p, q))
                if band(care, bnot(c)) is FALSE:
                    m[x] = p if x.op == "max" else q
                elif band(care, c) is FALSE:
                    m[x] = q if x.op == "max" else p
                else:
                    continue
                break
    return settle(tm.subst(t, m)) if m else t


def same_int(t, u, care):
    """Whether the integers t and u are equal where `care` holds."""
    if t is u:
        return True
    if not (t.op in ("int", "poly") or u.op in ("int", "poly")):
        return False
    return band(care, bnot(tm.eq0(tm.sub(t, u)))) is FALSE


def split_equal(a, b, care, left=None, path=TRUE):
    """Equality in every combination of the conditions both depend on."""
    if left is None:
        left = [400]
    left[0] -= 1
    if left[0] < 0:
        return False
    if care is FALSE:
        return True
    a = [(h, t) for h, t in ((band(g, care), t) for g, t in a)
         if h is not FALSE]
    b = [(h, t) for h, t in ((band(g, care), t) for g, t in b)
         if h is not FALSE]
    a = [(g, pick(t, band(g, path))) for g, t in a]
    b = [(g, pick(t, band(g, path))) for g, t in b]
    ta, tb = {t for _, t in a}, {t for _, t in b}
    if len(ta) == 1 and ta == tb and a and b:
        ga = gb = FALSE
        for g, _ in a:
            ga = bor(ga, g)
        for g, _ in b:
            gb = bor(gb, g)
        if ga is gb:
            return True
    if len(ta) <= 4 and len(tb) <= 4 and all(
            band(g, h) is FALSE or same_int(
                t, u, band(band(g, h), path))
            for g, t in a for h, u in b):
        return True
    atom = None
    for g, _ in a + b:
        if g is not care:
            for v in bdd_vars(g):
                if tm.restrict(g, v, True) is not tm.restrict(g, v, False):
                    if tm.restrict(care, v, True) is not FALSE and \
                            tm.restrict(care, v, False) is not FALSE:
                        atom = v
                        break
        if atom is not None:
            break
    if atom is None:
        for t in sorted(ta ^ tb, key=lambda t: t.dig):
            for x in tm.subterms(t):
                if x.op == "gv":
                    for g in x.args[::2]:
                        for v in bdd_vars(g):
                            atom = v
                            break
                        if atom is not None:
                            break
                if atom is not None:
                    break
            if atom is not None:
                break
    if atom is None:
        fixed = bdd_vars(path)
        for t in sorted(ta ^ tb, key=lambda t: t.dig):
            for x in tm.subterms(t):
                if x.op in ("min", "max") and len(x.args) == 2:
                    c = tm.gt0(tm.sub(*x.args))
                    for v in bdd_vars(c):
                        if v not in fixed:
                            atom = v
                            break
                if atom is not None:
                    break
            if atom is not None:
                break
    if atom is None:
        return False
    for val in (True, False):
        lit = tm.var(atom) if val else bnot(tm.var(atom))
        c = band(care, lit)
        if c is FALSE:
            continue
        m = {atom: TRUE if val else FALSE}

        def at(l):
            return [(tm.restrict(g, atom, val), settle(tm.subst(t, m)))
                    for g, t in l]
        if not split_equal(at(a), at(b), tm.restrict(c, atom, val), left,
                           band(path, lit)):
            return False
    return True


def fmt_gv(gv, n=3):
    out = []
    for g, t in gv[:n]:
        s = show(t, 7)
        if len(s) > 220:
            s = s[:220] + "…"
        if g is not TRUE:
            c = show(g, 4)
            s += " if " + (c if len(c) < 160 else c[:160] + "…")
        out.append(s)
    return "; ".join(out)


def short_cls(c):
    return c.rpartition(".")[2]


def compare(ref, act):
    out = judge(ref, act, TRUE)
    if out:
        ax = axioms.theory(ref, act)
        if ax is not TRUE:
            again = judge(ref, act, ax)
            if len(again) < len(out):
                out = again
    return out


def judge(ref, act, sane):
    """Differences on the assignments `sane` admits."""
    out = []
    care = band(band(ref.na, act.na), sane)
    # --- aborts
    ca, cb = ref.aborts, act.aborts
    ta = FALSE
    for g in ca.values():
        ta = bor(ta, g)
    tb = FALSE
    for g in cb.values():
        tb = bor(tb, g)
    for c in sorted(set(ca) | set(cb)):
        oa = FALSE
        for k, g in ca.items():
            if k != c:
                oa = bor(oa, g)
        for k, g in cb.items():
            if k != c:
                oa = bor(oa, g)
        ga = band(band(ca.get(c, FALSE), bnot(oa)), sane)
        gb = band(band(cb.get(c, FALSE), bnot(oa)), sane)
        if ga is not gb:
            miss = band(ga, bnot(gb))
            extra = band(gb, bnot(ga))
            txt = f"raises {short_cls(c)}: "
            parts = []
            if miss is not FALSE:
                parts.append("no longer when " + _c(miss))
            if extra is not FALSE:
                parts.append("also when " + _c(extra))
            out.append(Diff("abort", c, txt + "; ".join(parts), ga, gb))
    ta, tb = band(ta, sane), band(tb, sane)
    if ta is not tb and not out:
        d = tm.ite(ta, bnot(tb), tb)
        out.append(Diff("abort", "*", "set of aborting conditions differs "
                        "when " + _c(d), ta, tb))
    if care is FALSE and ref.na is not act.na:
        if not out:
            out.append(Diff("abort", "*", "never completes normally"))
    # --- return value
    r = gv_equal(ref.ret, act.ret, care)
    if r is not None:
        out.append(Diff("ret", "return", "returns " + fmt_gv(act.ret)
                        + "  instead of  " + fmt_gv(ref.ret),
                        ref.ret, act.ret))
    # --- heap
    heap_diff(out, "heap", ref.heap, act.heap, care, "")
    for c in sorted(set(ref.kept) & set(act.kept)):
        la, ha = ref.kept[c]
        lb, hb = act.kept[c]
        heap_diff(out, "heap", ha, hb, band(band(la, lb), sane),
                  " at raise " + short_cls(c))
    # --- events
    skip = matched_events(ref.events, act.events, care)
    for e in sorted(set(ref.events) | set(act.events)):
        if e in skip:
            continue
        ga = band(ref.events.get(e, FALSE), care)
        gb = band(act.events.get(e, FALSE), care)
        if ga is not gb:
            s = show(e, 6)
            if len(s) > 260:
                s = s[:260] + "…"
            if ga is FALSE:
                txt = "new effect " + s
            elif gb is FALSE:
                txt = "missing effect " + s
            else:
                txt = "effect " + s + " under a different condition"
            if gb is not FALSE and gb is not TRUE and ga is not FALSE:
                txt += ": " + _c(gb) + " instead of " + _c(ga)
            out.append(Diff("event", e, txt, ga, gb))
    for exc, what, node, k in faults.new_faults(ref.faults, act.faults):
        out.append(Diff("fault", "fault", f"line {getattr(node, 'lineno', 0)}"
                        f": can raise {exc} ({what}) when {_c(k)}"))
    return out


def matched_events(ra, rb, care):
    """Events that only differ in where the case distinction sits."""
    ka, kb = {}, {}
    for r, k, o in ((ra, ka, rb), (rb, kb, ra)):
        for e, g in r.items():
            g = band(g, care)
            if g is FALSE or band(o.get(e, FALSE), care) is g:
                continue
            k.setdefault(shape(e), []).append((g, e))
    out = set()
    for k in set(ka) & set(kb):
        ok = True
        for l in (ka[k], kb[k]):
            acc = FALSE
            for g, _ in l:
                if band(acc, g) is not FALSE:
                    ok = False
                acc = bor(acc, g)
        if ok and (struct_equal(ka[k], kb[k], care) or split_equal(
                [(g, settle(t)) for g, t in ka[k]],
                [(g, settle(t)) for g, t in kb[k]], care)):
            out.update(e for _, e in ka[k] + kb[k])
    return out


def heap_diff(out, comp, ra, rb, care, where):
    for k in sorted(set(ra) | set(rb),
                    key=lambda k: (k[0].dig, str(k[1]))):
        o, a = k
        if o.op in ("dead",):
            continue
        init = ((TRUE, o if a == "*" else tm.mk("attr", o, a)),)
        va = ra.get(k, init)
        vb = rb.get(k, init)
        r = gv_equal(va, vb, care)
        if r is not None:
            nm = show(o, 4) + ("" if a == "*" else "." + str(a))
            out.append(Diff(comp, k, f"final {nm}{where} = {fmt_gv(vb)}  "
                            f"instead of  {fmt_gv(va)}", va, vb))


def _c(g):
    s = show(g, 5)
    return s if len(s) < 300 else s[:300] + "…"
