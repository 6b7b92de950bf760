"""Writes /verif/reference from a source tree (used once, then reviewed).

usage: mkref.py SRC OUT
"""
import ast, difflib, os, re, shutil, sys
sys.path.insert(0, '/verif')
from sa.project import FORKS, strip_doc

class Strip(ast.NodeTransformer):
    def body(self, b):
        b = [x for x in b if not (isinstance(x, ast.Expr) and isinstance(
            x.value, ast.Constant) and isinstance(x.value.value, str))]
        return b
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                nb = self.body(b)
                if not nb and f == "body" and not isinstance(n, ast.Module):
                    nb = [ast.Pass()]
                setattr(n, f, nb)
        return n

def items(path, fork):
    t = Strip().visit(ast.parse(open(path).read()))
    out = []
    for s in t.body:
        x = ast.unparse(s)
        if fork:
            i = FORKS.index(fork)
            x = re.sub(r"\bethereum\.%s\b" % fork, "ethereum.__FORK__", x)
            if i:
                x = re.sub(r"\bethereum\.%s\b" % FORKS[i-1],
                           "ethereum.__PREV__", x)
                x = re.sub(r"from ethereum import %s as" % FORKS[i-1],
                           "from ethereum import __PREV__ as", x)
        out.append(x)
    return out

def ranges(fs):
    idx = sorted(FORKS.index(f) for f in fs)
    out = []; s = p = idx[0]
    for i in idx[1:] + [None]:
        if i is None or i != p + 1:
            out.append(FORKS[s] if s == p else f"{FORKS[s]}..{FORKS[p]}")
            s = i
        p = i
    return ",".join(out)

def main(src, out):
    keep = {f: open(os.path.join(out, f)).read() for f in (
        os.listdir(out) if os.path.isdir(out) else []) if f.endswith(".json")}
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for f, x in keep.items():
        open(os.path.join(out, f), "w").write(x)
    mods = {}
    for pk in ("ethereum", "ethereum_spec_tools", "ethereum_optimized"):
        for d, ds, fs in os.walk(os.path.join(src, pk)):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if not f.endswith(".py"): continue
                rel = os.path.relpath(os.path.join(d, f), src).split(os.sep)
                if rel[0] == "ethereum" and len(rel) > 2 and rel[1] in FORKS:
                    mods.setdefault(("fork",) + tuple(rel[2:]), {})[rel[1]] = items(os.path.join(d, f), rel[1])
                else:
                    mods[tuple(rel)] = {None: items(os.path.join(d, f), None)}
    tot = 0
    for rel, v in mods.items():
        p = os.path.join(out, *rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if None in v:
            txt = "\n".join(v[None]) + "\n"
        else:
            merged = []
            for f in FORKS:
                if f not in v: continue
                keys = [k for k, _ in merged]
                sm = difflib.SequenceMatcher(a=keys, b=v[f], autojunk=False)
                new = []
                for tag, i1, i2, j1, j2 in sm.get_opcodes():
                    if tag == "equal":
                        for k, fs in merged[i1:i2]:
                            fs.append(f); new.append((k, fs))
                    else:
                        new.extend(merged[i1:i2])
                        for x in v[f][j1:j2]: new.append((x, [f]))
                merged = new
            present = ranges(v)
            txt = f"#: module {present}\n"
            cur = None
            for k, fs in merged:
                r = ranges(fs)
                if r != cur:
                    txt += f"#: {r}\n"; cur = r
                txt += k + "\n"
        tot += len(txt)
        open(p, "w").write(txt)
    print(len(mods), "files", tot, "bytes")
main(sys.argv[1], sys.argv[2])
