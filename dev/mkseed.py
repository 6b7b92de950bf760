"""mkseed.py SPEC...: makes /verif/seeded/<id>/ from dev/seeds/<id>.py and
verifies its demonstration.

A spec defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], LIB (copy
evmlib.py), DEMO (Python source; exits non-zero / raises when broken).
"""
import json, os, shutil, subprocess, sys
V = "/verif"
R = "/repo"

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

def make(sid):
    ns = {}
    exec(open(f"{V}/dev/seeds/{sid}.py").read(), ns)
    d = f"{V}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    assert sh("git", "-C", R, "status", "--porcelain", "-uno").stdout == ""
    try:
        for f, old, new in ns["EDITS"]:
            p = f"{R}/src/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", R, "diff").stdout
        assert diff
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"],
               "what_it_breaks": ns["BREAKS"]},
              open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.py", "w").write(
        ns["DEMO"].lstrip("\n") if not ns.get("LIB", True) else
        "from evmlib import *  # noqa\n" + ns["DEMO"])
    if ns.get("LIB", True):
        shutil.copy(f"{V}/dev/demo/evmlib.py", f"{d}/evmlib.py")
    open(f"{d}/demo.sh", "w").write(
        "#!/bin/bash\nset -e\nexport PYTHONDONTWRITEBYTECODE=1\n"
        "exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(f"{d}/demo.sh", 0o755)
    clean = sh("bash", f"{d}/demo.sh", cwd=R)
    r = sh("git", "-C", R, "apply", f"{d}/patch.diff")
    assert r.returncode == 0, r.stderr
    try:
        bad = sh("bash", f"{d}/demo.sh", cwd=R)
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    ok = clean.returncode == 0 and bad.returncode != 0
    print(sid, "OK" if ok else "BAD", clean.returncode, bad.returncode,
          (bad.stderr.strip().splitlines() or [""])[-1][:150])
    if not ok:
        print(clean.stdout[-500:], clean.stderr[-1500:], bad.stderr[-800:])
    return ok

if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(x[:-3] for x in os.listdir(f"{V}/dev/seeds"))
    sys.exit(0 if all([make(i) for i in ids]) else 1)
