"""Endless distinct variants of one operation: same shape, other contents."""
import re

WORD = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")


def walk(x, fn, legacy=False, key=None):
    """Rebuild an operation with fn applied to every leaf that carries content."""
    if isinstance(x, dict):
        t = x.get("T")
        if t in ("enum", "type", "sh", "date", "bytes"):
            return x
        if t == "dt":
            return fn("dt", x)
        if t == "dict":
            return {"T": t, "v": [[k if legacy else walk(k, fn, legacy), walk(v, fn, legacy)] for k, v in x["v"]]}
        if "a" in x:
            return {"T": t, "a": {k: walk(v, fn, legacy) for k, v in x["a"].items()}}
        if t is not None:
            return dict(x, v=[walk(v, fn, legacy) for v in x["v"]])
        return {k: walk(v, fn, legacy) if k in ("o", "s", "y", "e", "x") else v for k, v in x.items()}
    if isinstance(x, list):
        return [walk(v, fn, legacy) for v in x]
    return fn("leaf", x)


def atoms(op):
    out = []

    def fn(kind, x):
        if kind == "dt":
            a = "dt"
            if a not in out:
                out.append(a)
        elif isinstance(x, str):
            for w in WORD.findall(x):
                if "w" + w not in out:
                    out.append("w" + w)
        elif isinstance(x, bool) or x is None:
            pass
        elif isinstance(x, (int, float)):
            if "n%r" % x not in out:
                out.append("n%r" % x)
        return x

    walk(op, fn, op["k"] == "legacy")
    return out


def letters(n):
    """Seven letters, scattered, different for different n."""
    x = (n * 2654435761 + 12345) % (1 << 32)
    out = []
    for _ in range(7):
        out.append("abcdefghijklmnopqrstuvwxyz"[x % 26])
        x //= 26
    return "".join(out)


def fresh(op, keep, n, scatter=False):
    """The n-th distinct variant of an operation: same shape, other contents."""
    tag = "_" + letters(n) if scatter else "_z%d" % n

    def word(m):
        return m.group(0) + tag if "w" + m.group(0) in keep else m.group(0)

    def fn(kind, x):
        if kind == "dt":
            if "dt" not in keep:
                return x
            v = list(x["v"]) + [0] * (7 - len(x["v"]))
            v[3:] = [n // 3600 % 24, n // 60 % 60, n % 60, n % 1000000]
            return dict(x, v=v)
        if isinstance(x, str):
            return WORD.sub(word, x)
        if isinstance(x, bool) or x is None:
            return x
        if isinstance(x, (int, float)) and "n%r" % x in keep and abs(x) < 1e300:
            return x + n
        return x

    return walk(op, fn, op["k"] == "legacy")
