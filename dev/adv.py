"""adv.py OUT [NAME...]: a copy of /repo with hand-written refactorings applied.

Each file in dev/adv holds sections starting with `### path::name[,name]`;
the text below replaces the named top-level functions/classes of that file.
"""
import ast, os, re, shutil, sys
out, only = sys.argv[1], sys.argv[2:]
shutil.rmtree(out, ignore_errors=True)
shutil.copytree("/repo/src", out + "/src",
                ignore=shutil.ignore_patterns("__pycache__"))
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "adv")
n = 0
for fn in sorted(os.listdir(d)):
    for sec in re.split(r"^### ", open(f"{d}/{fn}").read(), flags=re.M)[1:]:
        head, _, body = sec.partition("\n")
        path, _, names = head.strip().partition("::")
        names = names.split(",")
        if only and not any(o in head for o in only):
            continue
        p = f"{out}/src/{path}"
        src = open(p).read()
        lines = src.splitlines(keepends=True)
        spans = []
        first = True
        for nm in names:
            body_list = ast.parse(src).body
            if "." in nm:
                cls, nm = nm.split(".")
                body_list = [x for x in body_list
                             if getattr(x, "name", "") == cls][0].body
            hit = [s for s in body_list if getattr(s, "name", None) == nm or (
                isinstance(s, ast.Assign) and isinstance(
                    s.targets[0], ast.Name) and s.targets[0].id == nm)]
            assert hit, (path, nm)
            s = hit[0]
            lo = min([s.lineno] + [x.lineno for x in getattr(
                s, "decorator_list", [])])
            spans.append((lo - 1, s.end_lineno))
        for i, (a, b) in enumerate(sorted(spans, reverse=True)):
            last = i == len(spans) - 1
            lines[a:b] = [body.strip("\n") + "\n"] if last else []
        new = "".join(lines)
        ast.parse(new)
        open(p, "w").write(new)
        n += 1
print(n, "refactorings")
