"""C26: the genesis files shipped with the package describe the reviewed
genesis states: same keys, same values, whatever the formatting."""
import hashlib
import json
import os

from . import rule
from .. import reference
from ..project import AnalysisBroken

FIELDS = ("difficulty", "extraData", "gasLimit", "nonce", "timestamp")


def canon(x):
    """Values up to letter case, key order and formatting."""
    if isinstance(x, dict):
        return {str(k).lower(): canon(v) for k, v in x.items()}
    if isinstance(x, list):
        return [canon(v) for v in x]
    return x.lower() if isinstance(x, str) else x


def digest(x):
    return hashlib.sha256(json.dumps(
        canon(x), sort_keys=True).encode()).hexdigest()[:24]


def parts(x):
    """Digests of the entries the loader reads; accounts by first digit."""
    out = {"chainId": digest(x.get("config", {}).get("chainId"))}
    for k in FIELDS:
        out[k] = digest(x.get(k))
    b = {}
    for a, v in x.get("alloc", {}).items():
        a = a.lower().removeprefix("0x")
        b.setdefault("alloc " + a[:1], {})[a] = v
    out.update((k, digest(v)) for k, v in b.items())
    return out


class _Mod:
    def __init__(self, path):
        self.path = path


def line_of(text, key):
    for i, ln in enumerate(text.split("\n"), 1):
        if f'"{key}"' in ln:
            return i
    return 1


@rule("C26")
def genesis_data(ctx):
    """The shipped genesis files hold the reviewed genesis states."""
    with open(os.path.join(reference.ROOT, "genesis.json"),
              encoding="utf-8") as f:
        want = json.load(f)
    out = []
    n = 0
    d = os.path.join(ctx.repo, "src", "ethereum", "assets")
    for name, w in want.items():
        p = os.path.join(d, name + ".json")
        if not os.path.exists(p):
            out.append(ctx.finding("genesis-data", name, _Mod(p), 1,
                                   "genesis file is gone"))
            continue
        with open(p, encoding="utf-8") as f:
            text = f.read()
        try:
            data = json.loads(text)
            got = parts(data)
        except (ValueError, AttributeError, TypeError) as e:
            out.append(ctx.finding("genesis-data", name, _Mod(p), 1,
                                   f"is not a genesis file: {e}"))
            continue
        n += len(got)
        for k in sorted(set(w) | set(got)):
            if w.get(k) != got.get(k):
                key = k if not k.startswith("alloc ") else "alloc"
                what = key if key == k else \
                    f"an account whose address starts with {k[6:]}"
                out.append(ctx.finding(
                    "genesis-data", name, _Mod(p), line_of(text, key),
                    f"{what} differs from the reviewed genesis state"))
    if not n and not out:
        raise AnalysisBroken("no genesis files")
    ctx.count("genesis_entries", n)
    return out
