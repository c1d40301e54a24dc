"""C11: memory held by the SDK over long histories of distinct calls."""
import array
import contextvars
import copy
import gc
import json
import sys
import threading
import tracemalloc
import types
import weakref

from . import core, engine, gen, pool, props, seams, specs
from .core import V
from .vary import atoms, fresh

def status(op):
    o = specs.run_op(op)
    return o[:1] if o[0] == "ok" else o[:2]


def template(op):
    """Which contents of an operation can vary without changing how it ends
    (decided in a child; uses only the SDK's own verdicts)."""
    want = status(op)
    al = atoms(op)
    if status(fresh(op, al, 7)) == want and status(fresh(op, al, 123456)) == want:
        return {"op": op, "keep": al}
    keep = []
    for a in al[:40]:
        k = keep + [a]
        if status(fresh(op, k, 7)) == want and status(fresh(op, k, 123456)) == want:
            keep = k
    return {"op": op, "keep": keep}


class Interrupt(BaseException):
    pass


class Leak:
    def __init__(self, sc):
        self.sc = sc
        self.n = 0
        self.t = [dict(t, keep=set(t["keep"])) for t in sc["tmpl"]]
        import random

        self.r = random.Random(sc["seed"])
        self.pred = engine.traced_pred(False)
        self.fired = 0
        self.live = {}
        self.peak = 0

    def call(self, t):
        self.n += 1
        mode = self.sc["mode"]
        if mode == "derive":
            return self.derive(t)
        op = fresh(t["op"], t["keep"], self.n)
        if mode == "thread":
            th = threading.Thread(target=self.quiet, args=(op,))
            th.start()
            th.join()
        elif mode == "interrupt":
            self.interrupted(op, self.r.randint(1, max(1, t["ev"])))
        elif mode == "again":
            o = self.live.get(id(t))
            if o is None:
                try:
                    o = self.live[id(t)] = specs.build(t["op"]["o"])
                except Exception:
                    o = self.live[id(t)] = "none"
            if o != "none":
                try:
                    specs.execute(dict(t["op"], o={"T": "sh", "i": 0}), [o])
                except Exception:
                    pass
        else:
            self.quiet(op)

    def derive(self, t):
        """A long chain: each object derived from the one before, which is dropped."""
        o = self.live.get(id(t))
        if o is None:
            o = specs.build(t["root"])
        f, x = t["sets"][self.n % len(t["sets"])]
        try:
            o = getattr(o, f)(*[specs.build(v) for v in x])
        except Exception:
            pass
        self.live[id(t)] = o

    @staticmethod
    def quiet(op):
        try:
            specs.execute(op)
        except Exception:
            pass

    def interrupted(self, op, at):
        left = [at]
        pred = self.pred

        def local(frame, event, arg):
            left[0] -= 1
            if left[0] <= 0 and event == "line":
                # CPython 3.12 loses the exception being handled if the trace
                # function raises inside a handler
                if engine.unsafe(frame) or sys.exception() is not None:
                    return local
                sys.settrace(None)
                f = frame
                while f is not None:
                    f.f_trace = None
                    f = f.f_back
                self.fired += 1
                raise Interrupt()
            return local

        def glob(frame, event, arg):
            return local if pred(frame.f_code) else None

        try:
            sys.settrace(glob)
            try:
                specs.execute(op)
            finally:
                sys.settrace(None)
        except BaseException:
            sys.settrace(None)

    def run(self, ts, per):
        for _ in range(per):
            for t in ts:
                self.call(t)

    def held(self):
        sys._clear_type_cache()  # the interpreter's own, of attribute names
        for _ in range(2):
            gc.collect()
        return tracemalloc.get_traced_memory()[0]

    def windows(self, ts, warm, win, k, measure=None):
        measure = measure or self.held
        self.run(ts, warm)
        h = array.array("q", [0] * (k + 1))  # nothing of ours grows meanwhile
        h[0] = measure()
        for i in range(k):
            self.run(ts, win)
            h[i + 1] = measure()
        return list(h)


def reach():
    """Bytes reachable from the SDK's modules, without other modules' contents."""
    gc.collect()
    roots, seen, skip = [], set(), set()
    for n, m in list(sys.modules.items()):
        d = getattr(m, "__dict__", None)
        if n == "snuba_sdk" or n.startswith("snuba_sdk."):
            roots.append(d)
        elif d is not None:
            skip.add(id(d))
    roots += list(contextvars.copy_context().values())
    roots.append(getattr(weakref.finalize, "_registry", None))
    total, todo = 0, roots
    while todo:
        x = todo.pop()
        if id(x) in seen or id(x) in skip or isinstance(x, types.ModuleType):
            continue
        if isinstance(x, (type, types.FunctionType)) and not (x.__module__ or "").startswith("snuba_sdk"):
            continue
        seen.add(id(x))
        total += sys.getsizeof(x)
        todo += gc.get_referents(x)
        if isinstance(x, threading.local):
            todo.append(x.__dict__)
        if isinstance(x, weakref.ref):
            todo.append(x())
    return total


def growing(h, calls, per_call):
    """Every window grew, by at least per_call bytes a call on the whole."""
    d = [b - a for a, b in zip(h, h[1:])]
    return min(d) > 0 and h[-1] - h[0] >= per_call * calls * len(d) and h[-1] - h[len(h) // 2] >= 0.5 * per_call * calls * (len(h) - 1 - len(h) // 2)


@core.kind("leak")
def exec_leak(sc):
    seams.uninstall()
    gc.enable()
    gc.unfreeze()
    tracemalloc.start(1)
    l = Leak(sc)
    h = l.windows(l.t, sc["warm"], sc["win"], sc["k"])
    out = {"held": h, "suspects": [], "outcomes": [], "nontrivial": True}
    d = [b - a for a, b in zip(h, h[1:])]
    if sum(1 for x in d[1:] if x > 0) >= (3 if sc["mode"] == "interrupt" else 2) and h[-1] - h[1] >= (300 if sc["mode"] == "interrupt" else 64):
        # which calls, and does it go on for ever?
        sus = []
        for i, t in enumerate(l.t):
            hh = l.windows([t], sc["win"], 3 * sc["win"], 3)
            if growing(hh, 3 * sc["win"], 2):
                sus.append([i, round((hh[-1] - hh[0]) / (9.0 * sc["win"]), 1)])
        sus.sort(key=lambda s: l.t[s[0]]["ev"])
        sus = sus[: 1] if sus else []
        for i, _ in sus:
            n = sc["long"] // 8
            hh = l.windows([l.t[i]], 2 * n, n, 6)
            if growing(hh, n, 2) and (sc["mode"] != "interrupt" or growing(l.windows([l.t[i]], 0, n, 6, reach), n, 2)):
                out["suspects"].append([i, round((hh[-1] - hh[0]) / (6.0 * n), 1), l.n])
    out["calls"] = l.n
    out["fault_counts"] = {"interrupt" if sc["mode"] == "interrupt" else "calls-" + sc["mode"]: l.fired or l.n}
    return out


@core.judge_of("leak")
def judge_leak(sc, res, oracle):
    if not res["suspects"]:
        return None
    i, per, n = res["suspects"][0]
    t = sc["tmpl"][i]
    return V("memory-grows", "mode %s: memory held grows without end (still after %d calls) with calls like %s" % (sc["mode"], n, core.short(t.get("op") or t, 900)))


class C11(props.Lab):
    mix = ["snql", "snql", "mql", "mql", "legacy"]
    runs = {"quick": 150, "thorough": 3000}
    nfam = 150
    famsize = 2
    faults = True
    timeout = 800.0
    long = {"quick": 24000, "thorough": 100000}
    group = 6

    def prepare(self):
        super().prepare()
        ops = [o for f in self.families for o in f]
        ts = [None] * len(ops)

        def got(i, r):
            if isinstance(r, dict) and "op" in r:
                ts[i] = r

        pool.pmap(lambda i: core.child(template, ops[i]), len(ops), got)
        self.tmpl = []
        for t in ts:
            if t is None or not t["keep"]:
                continue
            t["ev"] = self.oracle.ev(t["op"])["line"][1]
            self.tmpl.append(t)
        self.ok = [t for t in self.tmpl if self.oracle(t["op"])[0] == "ok"]
        self.bad = [t for t in self.tmpl if self.oracle(t["op"])[0] != "ok"]

    def extra_coverage(self):
        return {"call_templates": len(getattr(self, "tmpl", [])), "templates_rejected": len(getattr(self, "bad", []))}

    def scenario(self, i):
        from . import props_values

        r = self.rng(i)
        slot = (i + i // 8) % 8
        mode = ["plain", "plain", "plain", "thread", "interrupt", "interrupt", "again", "derive"][slot]
        sc = {"type": "leak", "prop": self.prop, "seed": "%s/%s/%s" % (self.seed, self.prop, i), "mode": mode, "warm": 30, "win": 15, "k": 4, "long": self.long[self.tier]}
        if mode == "derive":
            g = gen.G(sc["seed"])
            ctx = {"names": ["title", "user", "timestamp", "event_id"]}
            ts = []
            while len(ts) < 6:
                T = r.choice(["Query", "MetricsQuery", "Timeseries", "Formula", "Metric", "MetricsScope"])
                root = {"Query": g.query, "MetricsQuery": g.metrics_query, "Timeseries": g.timeseries, "Formula": g.formula, "Metric": g.metric, "MetricsScope": g.scope}[T]()
                if self.oracle({"k": "build", "o": root})[0] != "ok":
                    continue
                sets = []
                for _ in range(6):
                    f, x, _, _ = props_values.set_step(g, r, T, ctx)
                    if self.oracle({"k": "build", "o": gen.LL(x)})[0] == "ok":
                        sets.append([f, x])
                if sets:
                    ts.append({"root": root, "sets": sets, "keep": [], "ev": 100})
            sc["tmpl"] = ts
            return sc
        src = self.tmpl
        if mode == "plain" and self.bad and r.random() < 0.4:
            src = self.bad
        if mode == "again":
            src = [t for t in self.ok if t["op"]["k"] == "call"]
        if mode == "interrupt":
            sc["win"] = 40
            sc["long"] //= 3
        # walk through the whole stock before repeating any of it
        group = self.group if mode != "interrupt" else 2
        k = (i // 8) * group
        order = list(range(len(src)))
        self.rng("order-%s-%d" % (mode, len(src))).shuffle(order)
        j = {"plain": slot * 40, "interrupt": slot * 40}.get(mode, 0)
        sc["tmpl"] = [copy.deepcopy(src[order[(k + j + x) % len(order)]]) for x in range(group)]
        return sc


props.ALL["C11"] = C11
