"""A separate interpreter under the simulator's control: one request per line on
standard input, one answer per line on standard output.  Started with an
environment (hash seed, zone, clock, randomness, ...) the simulator chose."""
import base64
import copy
import gc
import json
import os
import pickle
import random
import sys


class TrappedEnviron(type(os.environ)):
    """Any variable the SDK asks for has a value of the simulator's choosing."""

    answer = None
    asked = []

    def _for_sdk(self):
        f = sys._getframe(2)
        for _ in range(4):
            if f is None:
                return False
            if "/snuba_sdk/" in f.f_code.co_filename:
                return True
            f = f.f_back
        return False

    def __getitem__(self, k):
        if self.answer is not None and self._for_sdk():
            TrappedEnviron.asked.append(str(k))
            if self.answer == "-":
                raise KeyError(k)
            return self.answer
        return super().__getitem__(k)

    def __contains__(self, k):
        if self.answer is not None and self._for_sdk():
            return self.answer != "-"
        return super().__contains__(k)

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default


def same_kind(a, b):
    return a == b or (a[0] == b[0] == "err" and a[1] == b[1])


def check(specs, obj, spec, ops):
    """Everything a user can observe of obj, against one built here."""
    bad = []
    try:
        local = specs.build(spec)
    except Exception as e:
        return [["cannot-build", specs.err(e)[:2]]]
    if type(obj) is not type(local):
        return [["type", type(obj).__name__, type(local).__name__]]
    try:
        c, w = specs.canon(obj), specs.canon(local)
    except Exception as e:
        return [["fields", specs.err(e)]]
    if c != w:
        bad.append(["fields", first_diff(w, c)])
    for name, f in (("equal", lambda: obj == local), ("equal-reversed", lambda: local == obj), ("not-unequal", lambda: not (obj != local))):
        try:
            r = f()
        except Exception as e:
            r = specs.err(e)
        if r is not True:
            bad.append([name, r if isinstance(r, (bool, list)) else repr(r)])

    def h(x):
        try:
            return hash(x)
        except Exception as e:
            return type(e).__name__

    ho, hl = h(obj), h(local)
    if ho != hl:
        bad.append(["hash-differs"])
    elif isinstance(ho, int):
        if obj not in {local} or local not in {obj: 1}:
            bad.append(["lookup"])
    for op in ops:
        if op["k"] == "set":
            outs, objs = [], []
            for x in (obj, local):
                try:
                    n = getattr(x, op["f"])(*[specs.build(v) for v in op["x"]])
                    objs.append(n)
                    outs.append(["ok", specs.canon(n)])
                except Exception as e:
                    outs.append(specs.err(e))
            if not same_kind(*outs):
                bad.append(["after " + op["f"], first_diff(outs[1], outs[0])])
            elif len(objs) == 2 and not (objs[0] == objs[1]):
                bad.append(["unequal after " + op["f"]])
            continue
        outs = [specs.run_op(op, [x]) for x in (obj, local)]
        if not same_kind(*outs):
            bad.append([op.get("m") or op["k"], first_diff(outs[1], outs[0])])
    if specs.canon(obj) != c:
        bad.append(["changed-by-use", first_diff(c, specs.canon(obj))])
    return bad


def first_diff(a, b):
    a, b = json.dumps(a), json.dumps(b)
    i = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return ["want ..." + a[max(0, i - 60) : i + 120], "got ..." + b[max(0, i - 60) : i + 120]]


def quick_imports():
    """Only the SDK and this package are compiled from source every time; what
    they are built on may come from its byte code."""
    import _strptime  # noqa: F401
    import collections.abc  # noqa: F401
    import dataclasses  # noqa: F401
    import datetime  # noqa: F401
    import importlib._bootstrap_external as b
    import re  # noqa: F401
    import typing  # noqa: F401

    try:
        import parsimonious  # noqa: F401
    except ImportError:
        pass

    def none(*a, **k):
        raise NotImplementedError

    import importlib.util

    importlib.util.cache_from_source = none
    b.cache_from_source = none
    sys.dont_write_bytecode = True


def main():
    if len(sys.argv) > 1:
        return zygote(sys.argv[1])
    inp, out = sys.stdin, os.fdopen(os.dup(1), "w")
    cfg = json.loads(inp.readline())
    TrappedEnviron.answer = cfg.get("answer")
    os.environ.__class__ = TrappedEnviron
    keep = settle(cfg)
    if cfg.get("tty"):
        import pty

        m, s = pty.openpty()
        os.dup2(s, 1)
        os.dup2(s, 2)
        sys.stdout = os.fdopen(1, "w", closefd=False)
        sys.stderr = os.fdopen(2, "w", closefd=False)
        keep.append(m)
    if cfg.get("decimal"):
        import decimal

        decimal.getcontext().prec, decimal.getcontext().rounding = cfg["decimal"]
    if cfg.get("locale"):
        import locale

        locale.setlocale(locale.LC_ALL, cfg["locale"])
    try:
        quick_imports()
        from . import specs
    except BaseException as e:
        out.write(json.dumps({"import": [type(e).__name__, str(e)[:500]]}) + "\n")
        out.flush()
        os._exit(0)
    collector(cfg)
    serve(specs, inp, out)
    return keep


def calling(f, how):
    """f(), called from somewhere."""
    if how == "thread":
        import threading

        out = []
        t = threading.Thread(target=lambda: out.append(f()), name="worker-7")
        t.start()
        t.join()
        return out[0]
    if how == "loop":
        import asyncio

        async def main():
            return f()

        return asyncio.run(main())
    if how == "handler":
        try:
            raise KeyError("the caller's own")
        except KeyError:
            return f()
    if how == "deep":
        def down(n):
            return f() if n == 0 else down(n - 1)

        return down(150)
    if how == "generator":
        return next(f() for _ in (1,))
    if how == "profiled":
        sys.setprofile(lambda *a: None)
        try:
            return f()
        finally:
            sys.setprofile(None)
    return f()


def settle(cfg):
    r = random.Random(cfg.get("heap", 0))
    keep = [bytes(r.randrange(16, 500)) for _ in range(r.randrange(0, 3000))] if cfg.get("heap") else []
    return [k for k in keep if r.random() < 0.5]


def collector(cfg):
    g = cfg.get("gc")
    if g == 0:
        gc.disable()
    elif g:
        gc.set_threshold(g)


def zygote(path):
    """Import once, then fork a fresh node for every connection."""
    import select
    import signal
    import socket

    quick_imports()
    from . import specs

    ls = socket.socket(socket.AF_UNIX)
    ls.bind(path)
    ls.listen(64)
    os.write(1, b"ready\n")
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        rl, _, _ = select.select([ls, 0], [], [])
        if 0 in rl and not os.read(0, 1):
            os.unlink(path)
            os._exit(0)
        if ls in rl:
            c, _ = ls.accept()
            if os.fork() == 0:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                ls.close()
                inp, out = c.makefile("r"), c.makefile("w")
                cfg = json.loads(inp.readline())
                keep = settle(cfg)
                collector(cfg)
                try:
                    serve(specs, inp, out)
                except (BrokenPipeError, ConnectionError):
                    pass
                os._exit(0 if keep is not None else 1)
            c.close()


def serve(specs, inp, out):
    out.write(json.dumps({"ready": 1}) + "\n")
    out.flush()
    held = {}

    def dup(o, how):
        if how == "copy":
            return copy.copy(o)
        if how == "deepcopy":
            return copy.deepcopy(o)
        if how == "deepcopy2":  # next to itself in a container
            return copy.deepcopy([o, {"k": o}])[1]["k"]
        return pickle.loads(pickle.dumps(o, int(how)))

    for line in inp:
        q = json.loads(line)
        c = q["c"]
        a = None
        if c == "ops":
            a = calling(lambda: [specs.run_op(op) for op in q["ops"]], q.get("from"))
        elif c == "make":
            held[q["id"]] = specs.build(q["spec"])
        elif c == "use":
            if q["id"] in held:
                a = specs.run_op(q["op"], [held[q["id"]]])
        elif c == "dup":
            if q["id"] in held:
                o = held[q["id"]]
                before = specs.canon(o)
                try:
                    n = dup(o, q["how"])
                    held[q["new"]] = n
                    if q.get("spoil"):
                        (specs.spoil if q["how"] != "copy" else specs.spoil_top)(dup(o, q["how"]))
                    if specs.canon(o) != before:
                        a = ["original-changed", first_diff(before, specs.canon(o))]
                except Exception as e:
                    a = ["cannot-copy", q["how"]] + specs.err(e)[1:]
        elif c == "dump":
            if q["id"] in held:
                o = held[q["id"]]
                before = specs.canon(o)
                try:
                    a = {"data": base64.b64encode(pickle.dumps(o, q["how"])).decode()}
                    if specs.canon(o) != before:
                        a = ["original-changed", first_diff(before, specs.canon(o))]
                except Exception as e:
                    a = ["cannot-pickle", q["how"]] + specs.err(e)[1:]
        elif c == "load":
            try:
                held[q["id"]] = pickle.loads(base64.b64decode(q["data"]))
            except Exception as e:
                a = ["cannot-load"] + specs.err(e)[1:]
        elif c == "check":
            if q["id"] in held:
                a = check(specs, held[q["id"]], q["spec"], q["ops"])
        elif c == "asked":
            a = sorted(set(TrappedEnviron.asked))
        out.write(json.dumps(a) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
