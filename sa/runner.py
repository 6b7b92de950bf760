"""Runs the check of one property and writes its evidence."""
import importlib
import json
import os
import pkgutil
import sys
import time

from . import driver, modref, props, reference, structure, evalr, digest
from . import terms as tm
from .project import Tree, AnalysisBroken, FORKS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    """One violation: a specific construct of the current source."""

    def __init__(self, rule, where, file, line, text):
        self.rule, self.where, self.file = rule, where, file
        self.line, self.text = line, text

    def ident(self):
        return f"{self.rule}|{self.where}|{self.text}"

    def show(self):
        return f"{self.file}:{self.line}: [{self.rule}] {self.where}: " \
               f"{self.text}"


class Ctx:
    def __init__(self, pid, repo, tier):
        self.pid, self.repo, self.tier = pid, repo, tier
        self.act = Tree.from_dir(os.path.join(repo, "src"), "repo")
        self.ref = reference.load()
        if self.act.parse_errors:
            raise AnalysisBroken("does not parse: "
                                 + str(self.act.parse_errors[0]))
        self._infos = None
        self._ainfos = None
        self._pair = None
        self.counts = {}
        self.samples = {}
        self.notes = []

    @property
    def infos(self):
        if self._infos is None:
            self._infos = modref.infer(self.ref, list(self.ref.functions()))
        return self._infos

    @property
    def act_infos(self):
        """Effects inferred from the current tree."""
        if self._ainfos is None:
            self._ainfos = modref.infer(self.act, list(self.act.functions()))
        return self._ainfos

    @property
    def pair(self):
        if self._pair is None:
            self._pair = driver.Pairing(self.ref, self.act, self.infos)
            if self.tier == "thorough":
                self._pair.BUDGET = 3_000_000
                self._pair.DEPTH = 5
        return self._pair

    def plain_ev(self):
        """Evaluator of constants of the current tree, tables included."""
        if not hasattr(self, "_pev"):
            self._pev = evalr.Evaluator(self.act, self.pair.common,
                                        self.infos)
        return self._pev

    def rel(self, path):
        return os.path.relpath(path, self.repo) if path.startswith("/") \
            else path

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, k, v, cap=6):
        s = self.samples.setdefault(k, [])
        if len(s) < cap:
            s.append(v)

    def finding(self, rule, where, mod, node, text):
        line = node if isinstance(node, int) else getattr(node, "lineno", 0)
        return Finding(rule, where, self.rel(mod.path), line, text)


def reference_rule(ctx, pats, aspect):
    """Every definition of the region behaves as the reviewed one."""
    pair = ctx.pair
    match = props.matcher(pats)
    quals = sorted(q for q in pair.rf if match(q))
    out = []
    gone = [m for m in {q.rpartition(".")[0] for q in quals}
            if False]
    same = digest.Same(ctx.ref, ctx.act, pair.common)
    n_fn = ident = 0
    lost = []
    for q in quals:
        if q not in pair.common:
            lost.append(q)
            continue
        n_fn += 1
    res = pair.check(quals)
    for q, ds in sorted(res.items()):
        if q in pair.common and same.func(pair.rf[q], pair.af[q]) and \
                not pair.BUDGET:
            continue
        ds = [d for d in ds if aspect is None or aspect(q, d)]
        if not ds:
            ctx.count("differences_outside_the_aspect")
            continue
        g = pair.af.get(q)
        for d in ds[:4]:
            out.append(ctx.finding("reference-semantics", q, g.mod, g.node,
                                   str(d)))
    undecided = []
    for q in quals:
        if q in pair.common and pair.diff(q) is None:
            if not same.func(pair.rf[q], pair.af[q]):
                undecided.append(q)
            else:
                ident += 1
    # entry points that vanished
    cal = pair.callers()
    for q in lost:
        if q not in pair.af and not cal.get(q) and q not in pair._valued:
            raise AnalysisBroken(f"{q} is gone")
    ctx.count("functions_compared", n_fn)
    ctx.count("functions_compared_through_callers", len(lost))
    ctx.count("caller_escalations", pair.n_escalated)
    ctx.count("undecided", len(undecided))
    if undecided:
        ctx.notes.append("undecided (not alarmed): " + ", ".join(
            undecided[:10]))
    for q in quals[:: max(1, len(quals) // 5)]:
        ctx.sample("functions", q, 6)
    if ctx.pid in props.FUNCTIONS_ONLY:
        return out
    # classes and tables
    e1 = evalr.Evaluator(ctx.ref, pair.common, ctx.infos)
    e2 = evalr.Evaluator(ctx.act, pair.common, ctx.infos)
    nc = 0
    rc = {c.qual: c for c in ctx.ref.classes()}
    ac = {c.qual: c for c in ctx.act.classes()}
    for q, c in rc.items():
        if not match(q):
            continue
        d = ac.get(q)
        if d is None:
            s = ctx.act.resolve_dotted(q)
            d = s.node if s is not None and s.kind == "class" else None
        if d is None:
            continue
        nc += 1
        for x in structure.class_diffs(ctx.ref, ctx.act, e1, e2, c, d):
            out.append(ctx.finding("reference-structure", q, x.mod, x.line,
                                   x.text))
    ctx.count("classes_compared", nc)
    td, n = table_rule(ctx, e1, e2, match)
    out.extend(td)
    ctx.count("table_entries_compared", n)
    dn = 0
    for q in quals:
        if q in pair.common:
            dn += 1
            for x in structure.deco_diffs(ctx.ref, ctx.act, pair.rf[q],
                                          pair.af[q]):
                out.append(ctx.finding("reference-structure", q, x.mod,
                                       x.line, x.text))
    if n_fn + nc + n == 0 and pats:
        raise AnalysisBroken("region is empty")
    return out


def table_rule(ctx, e1, e2, match):
    out = []
    ds, n = structure.table_diffs(ctx.pair, e1, e2, match)
    for x in ds:
        out.append(ctx.finding("reference-table", x.owner, x.mod, x.line,
                               x.text))
    return out, n


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for ln in open(p, encoding="utf-8"):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            if ln.startswith("known: property="):
                rest = ln[len("known: property="):]
                pid, _, ident = rest.partition(" ")
                out.setdefault(pid, []).append(ident)
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    repo = "/repo"
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--repo":
            repo = argv[i + 1]
        elif argv[i] == "--rules-only":
            i -= 1
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    try:
        ctx = Ctx(pid, repo, tier)
        out = []
        if props.REGION.get(pid) and "--rules-only" not in argv:
            out += reference_rule(ctx, props.REGION[pid],
                                  props.ASPECT.get(pid))
        from . import rules
        for r in rules.for_property(pid):
            got = r(ctx)
            out += got
    except AnalysisBroken as e:
        print(f"ERROR property={pid}: the analysis has no answer: {e}")
        return 2
    known = known_findings().get(pid, [])
    fresh, old = [], []
    seen = set()
    for f in out:
        if f.ident() in seen:
            continue
        seen.add(f.ident())
        (old if any(k in f.ident() for k in known) else fresh).append(f)
    for f in old:
        print(f"KNOWN-FINDING: property={pid} {f.show()}")
    wall = time.time() - t0
    for k, v in sorted(ctx.counts.items()):
        print(f"  {k}: {v}")
    for n in ctx.notes:
        print("  note:", n)
    ev = {
        "property": pid, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": dict(
            explanation="Static analysis of /repo/src: every definition of "
            "the property's region is summarised (path conditions, effects, "
            "results) and compared with the reviewed rule for its fork; the "
            "structural rules named in the counts are decided on the "
            "resolved program. Nothing is executed.",
            counts=ctx.counts, samples=ctx.samples, notes=ctx.notes,
            region=props.REGION.get(pid, [])),
        "assumptions": [
            "the definitions under /verif/reference are the intended "
            "behaviour of each (frozen) fork",
            "operations of external packages (RLP, keccak, curve libraries, "
            "fixed-width integers) behave as documented"],
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if not fresh:
        print(f"OK property={pid} ({wall:.1f} s)")
        return 0
    rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
    with open(rp, "w") as fh:
        for f in fresh:
            fh.write(f.show() + "\n")
        fh.write(f"\nreproduce: cd /verif && python3 check.py {pid} "
                 f"--tier {tier}\n")
    for f in fresh[:12]:
        print("  " + f.show())
    print(f"VIOLATION property={pid} replay={rp}")
    return 1
