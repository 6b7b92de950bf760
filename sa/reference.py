"""Assembles the reviewed reference definitions into per-fork modules.

Each file of /verif/reference/fork holds the definitions of one module of
every fork, in sections tagged with the forks that share them:

    #: berlin..osaka
    def f(...): ...
"""
import ast
import os

from .project import FORKS, Tree, AnalysisBroken

ROOT = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "reference")


def expand(r):
    out = []
    for part in r.split(","):
        a, _, b = part.strip().partition("..")
        i = FORKS.index(a)
        j = FORKS.index(b) if b else i
        out.extend(FORKS[i:j + 1])
    return out


def sections(text):
    head, cur, buf = None, None, []
    out = []
    for ln in text.split("\n"):
        if ln.startswith("#: "):
            if buf and cur is not None:
                out.append((cur, "\n".join(buf)))
            buf = []
            if ln.startswith("#: module "):
                head = expand(ln[len("#: module "):])
            else:
                cur = expand(ln[3:])
        else:
            buf.append(ln)
    if buf and cur is not None:
        out.append((cur, "\n".join(buf)))
    return head, out


def load(root=ROOT, forks=None, label="reference"):
    t = Tree(label)
    n = 0
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)[:-3].split(os.sep)
            is_pkg = rel[-1] == "__init__"
            if is_pkg:
                rel = rel[:-1]
            with open(p, encoding="utf-8") as fh:
                text = fh.read()
            if rel[:1] != ["fork"]:
                t.add_source(".".join(rel), text, is_pkg, p)
                n += 1
                continue
            head, secs = sections(text)
            for fk in head:
                if forks is not None and fk not in forks:
                    continue
                i = FORKS.index(fk)
                body = "\n".join(x for fs, x in secs if fk in fs)
                body = body.replace("__FORK__", fk)
                if i:
                    body = body.replace("__PREV__", FORKS[i - 1])
                name = ".".join(["ethereum", fk] + rel[1:])
                t.add_source(name, body, is_pkg, p)
                n += 1
    if n < 50:
        raise AnalysisBroken(f"reference definitions missing under {root}")
    return t
