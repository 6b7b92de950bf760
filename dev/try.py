"""dev/try.py IDS FILE OLD NEW [FILE OLD NEW ...] [-r]: run checks on an
edited scratch copy of /repo (-r: rules only)."""
import os, shutil, subprocess, sys, tempfile
a = sys.argv[1:]
ro = "-r" in a
a = [x for x in a if x != "-r"]
ids = a[0].split(",")
d = tempfile.mkdtemp(dir="/tmp", prefix="try")
try:
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    for i in range(1, len(a), 3):
        p = f"{d}/src/{a[i]}"
        s = open(p).read()
        old = a[i+1].encode().decode("unicode_escape"); new = a[i+2].encode().decode("unicode_escape")
        assert s.count(old) >= 1, (p, old)
        open(p, "w").write(s.replace(old, new))
    for c in ids:
        r = subprocess.run(["python3", "check.py", c, "--repo", d] + (["--rules-only"] if ro else []), capture_output=True, text=True)
        print("\n".join(x[:400] for x in (r.stdout + r.stderr).splitlines() if x.startswith(("  src", "  /", "VIO", "OK", "ERR", "Tr")) or "note" in x or "rror" in x)[:3000], "exit", r.returncode)
finally:
    shutil.rmtree(d)
