"""C06 (set-method histories), C09 (results belong to the caller), C13 (edits)."""
import copy
import sys

from . import core, engine, gen, pool, props, seams, specs
from .core import V

# ---------------------------------------------------------------------------
# C06


def set_step(g, r, t, ctx):
    """One set call on an object of class t: (method, args, {field: value}, valid)."""
    L, O, E = gen.LL, gen.O, gen.E
    bad = r.random() < 0.15
    if t in ("Query", "Timeseries", "Formula") and r.random() < 0.06:
        f = r.choice(["groupby", "where", "having", "orderby", "array_join"] if t == "Query" else ["filters", "groupby"])
        return "set_" + f, [L([])], {f: L([])}, False
    if t == "Query":
        f = r.choice(props.QSETS)
        if f == "select":
            v = L(g.several(lambda: g.selectable(ctx), 1, 3)) if not bad else r.choice([L([]), L([1]), 5, L(["x"]), None])
        elif f == "groupby":
            v = L(g.several(lambda: g.selectable(ctx), 1, 2)) if not bad else r.choice([L([None]), "x", L(["a"])])
        elif f in ("where", "having"):
            v = L(g.several(lambda: g.cond(ctx), 1, 3)) if not bad else r.choice([L([1]), g.condition(ctx), 3])
        elif f == "orderby":
            v = L(g.several(lambda: O("OrderBy", exp=g.column(ctx), direction=E(r.choice(["Direction.ASC", "Direction.DESC"]))), 1, 2)) if not bad else r.choice([L([g.column(ctx)]), 1])
        elif f == "limitby":
            v = O("LimitBy", columns=L([g.column(ctx)]), count=r.choice([1, 5])) if not bad else r.choice([7, None])
        elif f == "array_join":
            v = L(g.several(lambda: g.column(ctx), 1, 2)) if not bad else r.choice([L([1]), L([])])
        elif f == "match":
            if bad:
                v = r.choice(["events", 5, None])
            else:
                v = r.choice([g.entity(), g.entity(alias="e"), O("Storage", name=r.choice(["errors_ro", "s2"])), O("Query", match=g.entity(), select=L([O("Column", name="title"), O("Column", name="user")])), g.query(kind="join")["a"]["match"]])
        else:
            wrap = {"limit": "Limit", "offset": "Offset", "granularity": "Granularity", "totals": "Totals"}[f]
            if bad:
                v = r.choice([-1, "x", None, 1.5, 10**9]) if f != "totals" else r.choice(["x", 1])
                return "set_" + f, [v], {f: O(wrap, **{f: v})}, False
            v = r.choice([True, False]) if f == "totals" else r.choice([1, 10, 60])
            return "set_" + f, [v], {f: O(wrap, **{f: v})}, True
        return "set_" + f, [v], {f: v}, not bad
    if t == "MetricsQuery":
        f = r.choice(["query", "start", "end", "rollup", "scope", "limit", "offset", "indexer_mappings", "extrapolate"])
        if f in ("limit", "offset", "extrapolate"):
            wrap = {"limit": "Limit", "offset": "Offset", "extrapolate": "Extrapolate"}[f]
            if bad:
                v = r.choice([-1, "x"]) if f != "extrapolate" else "x"
            else:
                v = r.choice([True, False]) if f == "extrapolate" else r.choice([1, 10, 60])
            return "set_" + f, [v], {f: O(wrap, **{f: v})}, not bad
        if f == "query":
            v = r.choice([g.timeseries, g.formula, g.mql])() if not bad else r.choice([5, None])
        elif f in ("start", "end"):
            v = {"T": "dt", "v": [2023, r.randint(1, 12), 3, 4, 5, 6], "tz": None} if not bad else "2023"
        elif f == "rollup":
            v = O("Rollup", interval=r.choice([60, 3600]), granularity=60) if not bad else 60
        elif f == "scope":
            v = g.scope() if not bad else 1
        else:
            bad = False
            v = gen.D([["a", r.randint(1, 3)], ["b", r.randint(2, 5)]])
        return "set_" + f, [v], {f: v}, not bad
    if t == "Timeseries":
        f = r.choice(["metric", "aggregate", "filters", "groupby"])
        if f == "metric":
            v = g.metric() if not bad else "m"
        elif f == "aggregate":
            v = r.choice(["sum", "avg", "quantiles"]) if not bad else 5
            if r.random() < 0.5:
                p = L([r.choice([0.5, 1, 1.0, True])])
                return "set_aggregate", [v, p], {"aggregate": v, "aggregate_params": p}, not bad
            return "set_aggregate", [v], {"aggregate": v, "aggregate_params": None}, not bad
        elif f == "filters":
            v = r.choice([None, L(g.several(g.mcond, 1, 2))]) if not bad else L([1])
        else:
            v = r.choice([None, g.mgroup()]) if not bad else L([1])
        return "set_" + f, [v], {f: v}, not bad
    if t == "Formula":
        f = r.choice(["parameters", "filters", "groupby"])
        if f == "parameters":
            v = L([r.choice([g.timeseries, g.formula])(), r.choice([1, 1.0, 2.5])]) if not bad else L(["x"])
        elif f == "filters":
            v = r.choice([None, L(g.several(g.mcond, 1, 2))]) if not bad else L([1])
        else:
            v = r.choice([None, g.mgroup()]) if not bad else L([1])
        return "set_" + f, [v], {f: v}, not bad
    if t == "Metric":
        f = r.choice(["mri", "public_name", "id"])
        v = (r.randint(1, 9) if f == "id" else r.choice(["a", "b", "c:d/e@f"])) if not bad else r.choice([None, 1.5])
        return "set_" + f, [v], {f: v}, not bad
    if t == "MetricsScope":
        v = r.choice(["a", "b", "spans"]) if not bad else r.choice([None, 3])
        return "set_use_case_id", [v], {"use_case_id": v}, not bad
    raise AssertionError(t)


WRAPPED = {"Query": ("limit", "offset", "granularity", "totals"), "MetricsQuery": ("limit", "offset", "extrapolate")}


class DerivSim(engine.Sim):
    """Threads derive objects from shared roots and from their own versions."""

    def __init__(self, sc):
        super().__init__(sc, runner=self.derive)
        self.versions = [[] for _ in self.threads]

    def derive(self, st, t):
        vs = self.versions[t.tid]
        if st is None:
            vs.append(None)
            return ["skip"]
        where, k = st["src"]
        src = self.shared[k] if where == "r" else vs[k]
        if src is None:
            vs.append(None)
            return ["skip"]
        args = [specs.build(x, self.shared) for x in st["x"]]
        try:
            sys.settrace(self.trace)
            try:
                new = getattr(src, st["f"])(*args)
            finally:
                sys.settrace(None)
            vs.append(new)
            return ["ok", specs.canon(new)]
        except BaseException as e:
            sys.settrace(None)
            vs.append(None)
            return specs.err(e)


def _emit(o):
    out = []
    for m in ("validate", "serialize", "print", "__str__"):
        f = getattr(o, m, None)
        if f is None:
            continue
        try:
            out.append([m, "ok", specs.canon(f())])
        except Exception as e:
            out.append([m] + specs.err(e)[:2])
    return out


@core.kind("deriv")
def exec_deriv(sc):
    sim = DerivSim(sc)
    res = sim.run()
    found = []
    # reference model: a map from field to value for every version
    for t, steps in enumerate(sc["threads"]):
        models = []
        for i, st in enumerate(steps):
            if st is None or res["outcomes"][t][i][0] != "ok":
                models.append(None)
                continue
            where, k = st["src"]
            base = dict(sc["shared"][k]["a"]) if where == "r" else models[k]
            m = dict(base)
            m.update(st["set"])
            models.append(m)
            obj = sim.versions[t][i]
            T = st["t"]
            want_t = specs.CLASSES[T]
            if type(obj) is not want_t:
                found.append(["wrong-type", t, i, type(obj).__name__])
                continue
            vals = {f: specs.build(v, sim.shared) for f, v in m.items()}
            for f, v in vals.items():
                a, b = specs.canon(getattr(obj, f)), specs.canon(v)
                if a != b:
                    found.append(["field", t, i, f, engine.diff(b, a)])
            try:
                direct = want_t(**vals)
            except Exception:
                direct = None
            if direct is None:
                continue
            a, b = specs.canon(obj), specs.canon(direct)
            if a != b:
                found.append(["direct-fields", t, i, engine.diff(b, a)])
                continue
            try:
                eq = [obj == direct, direct == obj, not (obj != direct)]
            except Exception as e:
                eq = [type(e).__name__]
            if eq != [True, True, True]:
                found.append(["not-equal-to-direct", t, i, eq])
            ea, eb = _emit(obj), _emit(direct)
            if ea != eb:
                found.append(["text", t, i, engine.diff(eb, ea)])
    res["found"] = found[:5]
    return res


@core.judge_of("deriv")
def judge_deriv(sc, res, oracle):
    for p in res["problems"]:
        if p[0] == "harness":
            raise core.HarnessError(p[1])
    if res["verdict"] != "done":
        return V("no-progress", "threads did not finish: %s" % res["verdict"])
    if res["found"]:
        f = res["found"][0]
        st = sc["threads"][f[1]][f[2]]
        return V("history-" + f[0], "thread %d, derivation %d (%s%s): %s" % (f[1], f[2], st["f"], core.short(st["x"], 300), core.short(f[3:])))
    for t, steps in enumerate(sc["threads"]):
        models = []
        for i, st in enumerate(steps):
            got = res["outcomes"][t][i]
            if st is None or got[0] == "skip":
                models.append(None)
                continue
            where, k = st["src"]
            base = sc["shared"][k]["a"] if where == "r" else models[k]
            cur = {"T": st["t"], "a": base}
            alone = specs.subst({"k": "set", "o": cur, "f": st["f"], "x": st["x"]}, sc["shared"])
            if oracle({"k": "build", "o": alone["o"]})[0] == "ok":
                want = oracle(alone)
                if got != want:
                    return V("result-differs", "thread %d, derivation %d: %s" % (t, i, core.compare(alone, got, want)))
            if got[0] == "ok":
                models.append(dict(base, **st["set"]))
            else:
                models.append(None)
                if st["valid"]:
                    direct = specs.subst({"k": "build", "o": {"T": st["t"], "a": dict(base, **st["set"])}}, sc["shared"])
                    if oracle(direct)[0] == "ok":
                        return V("rejected-valid", "%s(%s) is rejected (%s) although an object built directly with that value is accepted" % (st["f"], core.short(st["x"], 300), got[1:]))
    for p in res["problems"]:
        return V("object-changed", "%s: %s" % (p[0], core.short(p[1:])))
    return None


class C06(props.Lab):
    runs = {"quick": 3000, "thorough": 60000}
    nfam = 1

    def probe_work(self):
        g = gen.G("%s/%s/probe" % (self.seed, self.prop))
        out = []
        for _ in range(80):
            t = g.ch(["Query", "Query", "MetricsQuery", "Timeseries", "Formula", "Metric", "MetricsScope"])
            o = {"Query": g.query, "MetricsQuery": g.metrics_query, "Timeseries": g.timeseries, "Formula": g.formula, "Metric": g.metric, "MetricsScope": g.scope}[t]()
            f, x, s, _ = set_step(g, g.r, t, {"names": ["title", "user"]})
            out.append((None, {"k": "set", "o": o, "f": f, "x": x}))
        return out

    def scenario(self, i):
        r = self.rng(i)
        g = gen.G("%s/%s/%s/g" % (self.seed, self.prop, i))
        sc = self.base(r, i)
        sc["type"] = "deriv"
        t = r.choice(["Query", "Query", "Query", "MetricsQuery", "MetricsQuery", "Timeseries", "Formula", "Metric", "MetricsScope"])
        ctx = {"names": ["title", "user", "timestamp", "event_id"]}
        roots = []
        for _ in range(r.choice([1, 1, 2])):
            if t == "Query":
                root = {"T": "Query", "a": {"match": g.entity()}} if r.random() < 0.4 else g.query()
            elif t == "MetricsQuery":
                root = {"T": "MetricsQuery", "a": {}} if r.random() < 0.3 else g.metrics_query()
            elif t == "Metric":
                root = g.metric()
            elif t == "MetricsScope":
                root = g.scope()
            else:
                root = g.timeseries() if t == "Timeseries" else g.formula()
            if self.oracle({"k": "build", "o": root})[0] == "ok":
                roots.append(root)
        if not roots:
            roots = [{"T": "Query", "a": {"match": g.entity()}}]
            t = "Query"
        sc["shared"] = list(roots)
        nroots = len(roots)
        sc["threads"] = []
        n = r.choice([1, 1, 2, 2, 3])
        pool_steps = []
        for _ in range(n):
            steps = []
            for k in range(r.randint(2, 7)):
                same = roots[0]["a"] if r.random() < 0.3 else None
                if pool_steps and r.random() < 0.3:
                    f, x, s, valid = copy.deepcopy(r.choice(pool_steps))  # the same value again, elsewhere
                    if len(s) == 1 and len(x) == 1 and x[0] == list(s.values())[0] and r.random() < 0.4:
                        x = [g.eqvar(x[0])]  # ... or one that is equal to it in part
                        s, valid = {list(s)[0]: x[0]}, False
                        if self.oracle(specs.subst({"k": "build", "o": gen.LL(x)}, sc["shared"]))[0] != "ok":
                            continue
                elif same and r.random() < 0.5:
                    # the value the root already has, or one that equals it
                    fld = r.choice(sorted(same))
                    v = copy.deepcopy(same[fld])
                    if fld in WRAPPED.get(t, ()):
                        v = v["a"][fld] if isinstance(v, dict) and fld in v.get("a", {}) else None
                    if v is None or not hasattr(specs.CLASSES[t], "set_" + fld) or fld == "aggregate":
                        continue
                    if r.random() < 0.6:
                        v = g.eqvar(v)
                    f, x, valid = "set_" + fld, [v], False
                    s = {fld: gen.O(fld.capitalize(), **{fld: v}) if fld in WRAPPED.get(t, ()) else v}
                    if self.oracle({"k": "build", "o": gen.LL(x)})[0] != "ok":
                        continue
                    pool_steps.append((f, x, s, valid))
                else:
                    f, x, s, valid = set_step(g, r, t, ctx)
                    if r.random() < 0.25 and isinstance(x[0], dict) and len(x) == 1 and len(s) == 1 and x[0] == list(s.values())[0] and self.oracle({"k": "build", "o": x[0]})[0] == "ok":
                        # one value object passed to several calls
                        sc["shared"].append(x[0])
                        ref = {"T": "sh", "i": len(sc["shared"]) - 1}
                        x, s = [ref], {list(s)[0]: ref}
                    if self.oracle(specs.subst({"k": "build", "o": gen.LL(x)}, sc["shared"]))[0] != "ok":
                        continue
                    pool_steps.append((f, x, s, valid))
                src = ["r", r.randrange(nroots)] if not steps or r.random() < 0.25 else ["v", r.randrange(len(steps)) if r.random() < 0.4 else len(steps) - 1]
                steps.append({"src": src, "t": t, "f": f, "x": x, "set": s, "valid": valid})
            if steps:
                sc["threads"].append(steps)
        if not sc["threads"]:
            sc["threads"] = [[{"src": ["r", 0], "t": "Query", "f": "set_limit", "x": [5], "set": {"limit": gen.O("Limit", limit=5)}, "valid": True}]] if t == "Query" else [[None]]
        self.gran(r, sc)
        sc["check_ops"] = True
        st = r.random()
        sc["strategy"] = {"s": "geo", "mean": r.choice([2, 5, 15, 50, 200])} if st < 0.8 and n > 1 else {"s": "opb"}
        sc["op_yield"] = st > 0.9
        if self.hot and n > 1 and r.random() < 0.5:
            sc["hot"] = self.hot
            sc["strategy"] = {"s": "hot", "p": r.choice([0.7, 0.3, 0.1])}
        return sc


# ---------------------------------------------------------------------------
# C09


class SpoilSim(engine.Sim):
    """Callers modify everything they were handed, while other calls run."""

    def __init__(self, sc):
        super().__init__(sc, runner=self.use)
        self.held = []  # (tid, op index, result, canonical value when received)
        self.clashes = []

    def use(self, op, t):
        try:
            sys.settrace(self.trace)
            try:
                r = specs.execute(op, self.shared)
            finally:
                sys.settrace(None)
        except BaseException as e:
            sys.settrace(None)
            return specs.err(e)
        if op["k"] == "build":  # a new request: what it was given is the caller's, its defaults are ours
            r = [getattr(r, f) for f in op["only"]]
        c = specs.canon(r)
        mine = specs.mutable_parts(r)
        mode = self.sc["spoil"][t.tid][t.opi] if t.opi < len(self.sc["spoil"][t.tid]) else "keep"
        for who, parts in [("the object it was made from", specs.mutable_parts(self.shared))] + [
            ("the result of thread %d, call %d" % (h[0], h[1]), h[4]) for h in self.held
        ]:
            both = [x for k, x in mine.items() if k in parts and parts[k] is x]
            if both and len(self.clashes) < 3:
                self.clashes.append([t.tid, t.opi, who, core.short(specs.canon(both[0]), 200)])
        if mode == "now":
            specs.spoil(r)
        elif mode == "keep":
            self.held.append((t.tid, t.opi, r, c, mine))
        elif mode == "later":
            self.late = getattr(self, "late", [])
            self.late.append(r)
            self.held.append((t.tid, t.opi, [], specs.canon([]), mine))
        # what was kept by anybody is modified at some later moment
        if getattr(self, "late", None) and self.rng.random() < 0.5:
            specs.spoil(self.late.pop(0))
        return ["ok", c]


@core.kind("spoil")
def exec_spoil(sc):
    sim = SpoilSim(sc)
    res = sim.run()
    res["changed_results"] = []
    for tid, opi, r, c, _ in sim.held:
        now = specs.canon(r)
        if now != c:
            res["changed_results"].append([tid, opi, engine.diff(c, now)])
    res["clashes"] = sim.clashes
    res["fault_counts"] = {"result-modified": sum(1 for x in sc["spoil"] for y in x if y != "keep")}
    return res


@core.judge_of("spoil")
def judge_spoil(sc, res, oracle):
    for p in res["problems"]:
        if p[0] == "harness":
            raise core.HarnessError(p[1])
    if res["verdict"] != "done":
        return V("no-progress", res["verdict"])
    for t, ops in enumerate(sc["threads"]):
        for i, op in enumerate(ops):
            sub = specs.subst(op, sc["shared"])
            want = oracle(sub)
            if op["k"] == "build" and want[0] == "ok":
                want = ["ok", oracle_fields(want, op["only"])]
            got = res["outcomes"][t][i]
            if got != want:
                return V("result-differs", "thread %d, call %d, after other results were modified: %s" % (t, i, core.compare(sub, got, want)))
    if res["changed_results"]:
        return V("other-result-changed", core.short(res["changed_results"][0]))
    for p in res["problems"]:
        return V("object-changed", "%s: %s" % (p[0], core.short(p[1:])))
    if res["clashes"]:
        t, i, who, what = res["clashes"][0]
        return V("shared-part", "the result of thread %d, call %d (%s) shares a mutable part with %s: %s" % (t, i, core.short(sc["threads"][t][i], 500), who, what))
    return None


def oracle_fields(want, only):
    d = dict((k, v) for k, v in want[1][2])
    return ["l", [d[f] for f in only]]


class C09(props.Lab):
    mix = ["plain"]
    runs = {"quick": 3000, "thorough": 60000}

    def prepare(self):
        def op_plain(g):
            x = g.r.random()
            if x < 0.3:
                return {"k": "parse", "s": g.mql()}
            if x < 0.5:
                return {"k": "call", "o": g.metrics_query(), "m": "serialize"}
            if x < 0.6:
                return {"k": "call", "o": g.delete(), "m": "serialize"}
            if x < 0.65:
                return {"k": "call", "o": g.flags(), "m": "to_dict"}
            if x < 0.72:
                b = g.legacy()
                only = ["flags"]
                if not any(k == "tenant_ids" for k, _ in b["v"]):
                    only.append("tenant_ids")
                return {"k": "legacyreq", "o": b, "e": g.ch(gen.ENTS), "only": only}
            q = g.r.choice([g.query, g.metrics_query, g.metrics_query, g.delete, g.delete])()
            return {"k": "call", "o": g.request(q), "m": "to_dict"}

        gen.G.op_plain = op_plain
        super().prepare()

    def scenario(self, i):
        r = self.rng(i)
        sc = self.base(r, i)
        sc["type"] = "spoil"
        n = r.choice([1, 1, 2, 2, 3])
        k = r.choice([2, 3, 4])
        fam = r.choice(self.hotfams if self.hotfams and r.random() < 0.5 else self.families)
        if r.random() < self.fresh:
            fam = self.new_family(r) or fam
        ops = [copy.deepcopy(r.choice(fam)) if r.random() < 0.8 else copy.deepcopy(r.choice(r.choice(self.families))) for _ in range(n * k)]
        for j, op in enumerate(ops):
            if r.random() < 0.4 and j:
                ops[j] = copy.deepcopy(ops[r.randrange(j)])  # the very same call again
            if r.random() < 0.08:
                g = gen.G(r.random())
                a = {"dataset": "events", "app_id": "x", "query": g.delete()}
                only = ["flags", "tenant_ids"]
                if r.random() < 0.3:
                    a["tenant_ids"] = gen.D([["referrer", "r"]])
                    only = ["flags"]
                ops[j] = {"k": "build", "o": {"T": "Request", "a": a}, "only": only}
        sc["threads"] = [ops[t * k : (t + 1) * k] for t in range(n)]
        sc["shared"] = []
        if r.random() < 0.6:
            sc["shared"] = self.share(r, sc["threads"], 1, ms=["serialize", "to_dict"])
            for ops in sc["threads"]:
                for j, op in enumerate(ops):
                    if op["k"] == "call" and op["o"].get("T") == "sh":
                        T = sc["shared"][op["o"]["i"]]["T"]
                        ops[j] = dict(op, m="to_dict" if T in ("Request", "Flags") else "serialize")
                    elif op["k"] == "build" and op["o"].get("T") == "sh":
                        ops[j] = dict(op, o=copy.deepcopy(sc["shared"][op["o"]["i"]]))
        sc["spoil"] = [[r.choice(["now", "now", "later", "keep"]) for _ in ops] for ops in sc["threads"]]
        sc["check_ops"] = True
        gk = self.gran(r, sc)
        if n == 1 and r.random() < 0.7:
            sc["gran"] = "line"
        self.strategy(r, sc, sc["gran"] + ("+" if sc["deep"] else ""))
        return sc


# ---------------------------------------------------------------------------
# C13


def slots(live, spec, frozen_ok=False, path=()):
    """Editable places: (path, kind, spec) where live and spec agree in shape."""
    out = []
    T = spec.get("T") if isinstance(spec, dict) else None
    if T == "list" and type(live) is list and len(live) == len(spec["v"]):
        out.append((path, "list"))
        for i, (l, s) in enumerate(zip(live, spec["v"])):
            out += slots(l, s, path=path + (i,))
    elif T == "tuple" and type(live) is tuple and len(live) == len(spec["v"]):
        for i, (l, s) in enumerate(zip(live, spec["v"])):
            out += slots(l, s, path=path + (i,))
    elif T == "dict" and type(live) is dict:
        out.append((path, "dict"))
        for k, s in spec["v"]:
            if isinstance(k, str) and k in live:
                out += slots(live[k], s, path=path + (k,))
    elif isinstance(spec, dict) and "a" in spec and type(live).__name__ == T:
        import dataclasses

        if dataclasses.is_dataclass(live):
            if not live.__dataclass_params__.frozen:
                out.append((path, "obj"))
            for k, s in spec["a"].items():
                if hasattr(live, k):
                    out += slots(getattr(live, k), s, path=path + (k,))
    return out


class EditSim(engine.Sim):
    """Thread 0 uses and edits one object; other threads make unrelated calls."""

    def __init__(self, sc):
        super().__init__(sc, runner=self.step)
        self.spec = copy.deepcopy(sc["root"])
        self.live = None
        self.history = []

    def step(self, st, t):
        if self.live is None:
            self.live = specs.build(self.spec)
        if st.get("t") == "edit":
            try:
                specs.apply_edit(self.live, self.spec, st)
            except Exception as e:  # an edit that no longer fits (only while minimising)
                self.problems.append(["harness", "edit: %r" % e])
            return ["edit"]
        if st.get("t") != "use":
            return self._run_op(st, t)
        op = dict(st["op"], o={"T": "sh", "i": 0})
        if "y" in op:
            op["y"] = copy.deepcopy(self.spec)
        self.history.append([t.opi, copy.deepcopy(self.spec)])
        try:
            sys.settrace(self.trace)
            try:
                r = specs.execute(op, [self.live])
            finally:
                sys.settrace(None)
            return ["ok", specs.canon(r)]
        except BaseException as e:
            sys.settrace(None)
            return specs.err(e)


@core.kind("edit")
def exec_edit(sc):
    sim = EditSim(sc)
    res = sim.run()
    res["history"] = sim.history
    res["fault_counts"] = {"edit": sum(1 for s in sc["threads"][0] if s.get("t") == "edit")}
    return res


@core.judge_of("edit")
def judge_edit(sc, res, oracle):
    for p in res["problems"]:
        if p[0] == "harness":
            raise core.HarnessError(p[1])
    if res["verdict"] != "done":
        return V("no-progress", res["verdict"])
    specat = dict((i, s) for i, s in res["history"])
    for i, st in enumerate(sc["threads"][0]):
        if st.get("t") != "use":
            continue
        got = res["outcomes"][0][i]
        fresh = dict(st["op"], o=specat[i])
        if "y" in fresh:
            fresh["y"] = specat[i]
        want = oracle(fresh)
        if got == want:
            continue
        if want[0] == "err" and (st["op"].get("m") in (None, "str", "eq") or sc["root"]["T"] == "DeleteQuery" and st["op"]["m"] == "print") and oracle({"k": "build", "o": specat[i]})[0] == "err":
            # the content could not be built directly, and this use checks
            # nothing: the reference is the same edits with no call before
            fresh = {"k": "edited", "root": sc["root"], "edits": [e for e in sc["threads"][0][:i] if e.get("t") == "edit"], "op": dict(st["op"], **({"y": sc["root"]} if "y" in st["op"] else {}))}
            if st["op"].get("m") == "eq":
                continue
            want = oracle(fresh)
            if got == want:
                continue
        if got[0] == "err" and want[0] == "err":
            continue  # rejected either way; where the check sits decides the wording
        return V("stale-result", "use %d of the edited object: %s" % (i, core.compare(fresh, got, want)))
    for t in range(1, len(sc["threads"])):
        for i, op in enumerate(sc["threads"][t]):
            want, got = oracle(op), res["outcomes"][t][i]
            if got != want:
                return V("result-differs", "thread %d, call %d: %s" % (t, i, core.compare(op, got, want)))
    return None


class C13(props.Lab):
    mix = ["snql", "mql"]
    runs = {"quick": 3000, "thorough": 60000}

    def scenario(self, i):
        r = self.rng(i)
        g = gen.G("%s/%s/%s/g" % (self.seed, self.prop, i))
        sc = self.base(r, i)
        sc["type"] = "edit"
        for _ in range(20):
            x = r.random()
            if x < 0.15:
                root = self.expression_root(r, g)
                if root["T"] not in USES:
                    continue
            elif x < 0.35:
                root = g.query()
            elif x < 0.5:
                root = g.metrics_query()
            elif x < 0.73:
                root = g.request(g.query() if r.random() < 0.5 else g.metrics_query() if r.random() < 0.7 else g.delete())
            elif x < 0.82:
                root = g.delete()
            elif x < 0.86:
                root = g.scope()
            elif x < 0.97:
                root = g.timeseries()
            else:
                root = g.flags()
            if self.oracle({"k": "build", "o": root})[0] == "ok":
                break
        else:
            root = g.delete()
        steps = pool.forked(plan_edits, root, "%s/%s/%s/e" % (self.seed, self.prop, i))
        if not isinstance(steps, list):
            raise core.HarnessError(str(steps))
        sc["root"] = root
        sc["threads"] = [steps]
        if r.random() < 0.4:
            sc["threads"].append(self.pick_ops(r, r.randint(1, 3)))
        self.gran(r, sc)
        if r.random() < 0.5:
            sc["gran"] = "line"
        sc["strategy"] = {"s": "geo", "mean": r.choice([10, 100, 1000])}
        if self.hot and len(sc["threads"]) > 1 and r.random() < 0.5:
            sc["hot"] = self.hot
            sc["strategy"] = {"s": "hot", "p": r.choice([0.7, 0.3, 0.1])}
        return sc


    def expression_root(self, r, g):
        ctx = {"names": ["title", "user", "timestamp", "status"]}
        x = r.random()
        if x < 0.3:
            return g.function(ctx)
        if x < 0.55:
            return g.cond(ctx)
        if x < 0.65:
            return gen.O("LimitBy", columns=gen.LL([g.column(ctx) for _ in range(r.randint(1, 3))]), count=r.randint(1, 9))
        if x < 0.75:
            return g.query(kind="join")["a"]["match"]
        return g.formula()


EXPR = ["validate", "validate", "eq", "tr", "find"]
USES = {
    "Function": EXPR, "CurriedFunction": EXPR, "Condition": EXPR, "And": EXPR, "Or": EXPR, "BooleanCondition": EXPR,
    "LimitBy": ["validate", "eq", "tr"], "Join": ["validate", "eq", "tr"], "Formula": ["validate", "eq"],
    "Query": ["validate", "serialize", "print", "str", "eq"],
    "MetricsQuery": ["validate", "serialize", "print", "str", "eq"],
    "Request": ["validate", "to_dict", "serialize", "print", "eq"],
    "DeleteQuery": ["validate", "serialize", "print", "eq"],
    "MetricsScope": ["validate", "eq"],
    "Timeseries": ["validate", "eq"],
    "Flags": ["validate", "to_dict", "eq"],
}


def plan_edits(root, seed):
    """Plan uses and edits, in a child, against a live copy (for its shape)."""
    import random

    r = random.Random(seed)
    g = gen.G(seed)
    spec = copy.deepcopy(root)
    live = specs.build(spec)
    steps = []

    def use():
        m = r.choice(USES[root["T"]])
        op = {"k": "call", "m": m}
        if m == "tr":
            op = {"k": "tr"}
        elif m == "find":
            op = {"k": "find", "t": "Column"}
        elif m == "eq":
            op["y"] = None
        steps.append({"t": "use", "op": op})

    for _ in range(r.randint(1, 2)):
        use()
    for _ in range(r.randint(1, 4)):
        for _ in range(10):
            e = one_edit(r, g, live, spec)
            if e is None:
                continue
            try:
                specs.build(e.get("v"))
            except Exception:
                continue
            specs.apply_edit(live, spec, e)
            steps.append(e)
            break
        for _ in range(r.randint(1, 2)):
            use()
    return steps


def one_edit(r, g, live, spec):
    ss = slots(live, spec)
    if not ss:
        return None
    path, kind = r.choice(ss)
    lv, sp = specs.nav(live, spec, path)
    # the class and field the place belongs to
    owner, field = None, None
    _, s = live, spec
    for k in path:
        if isinstance(s, dict) and "a" in s:
            owner, field = s["T"], k
        _, s = specs.nav(_, s, (k,))
    return edit_for(r, g, spec, path, kind, lv, sp, owner, field)


def edit_for(r, g, root, path, kind, lv, sp, owner, field):
    ctx = {"names": ["title", "user", "timestamp", "status"]}
    path = list(path)
    if kind == "obj":
        T = sp["T"]
        k = None
        if T == "Flags":
            k, v = r.choice(["totals", "turbo", "debug", "dry_run"]), r.choice([True, False, None, "yes", 1])
        elif T == "Request":
            k = r.choice(["dataset", "app_id", "parent_api", "tenant_ids", "flags", "query"])
            v = {
                "dataset": ["events", "d2", "", "bad name", 5], "app_id": ["x", "", "y-1", None], "parent_api": ["/p", "", None],
                "tenant_ids": [gen.D([["a", 1]]), gen.D([]), 5], "flags": [g.flags(), None], "query": [g.query(), g.metrics_query(), g.delete()],
            }[k]
            v = r.choice(v)
        elif T == "MetricsQuery":
            k = r.choice(["query", "start", "end", "rollup", "scope", "limit", "offset", "indexer_mappings", "extrapolate"])
            v = {
                "query": [g.timeseries(), g.formula(), g.mql(), None, 5, "sum("], "start": [g.dt(), None, "x"], "end": [g.dt(), None],
                "rollup": [g.rollup(), None, 5], "scope": [g.scope(), None, 7], "limit": [gen.O("Limit", limit=5), None], "offset": [gen.O("Offset", offset=2), None],
                "indexer_mappings": [gen.D([["z", 3]]), gen.D([])], "extrapolate": [gen.O("Extrapolate", extrapolate=True), None],
            }[k]
            v = r.choice(v)
        elif T == "Timeseries":
            k = r.choice(["metric", "aggregate", "aggregate_params", "filters", "groupby"])
            top = not path or (len(path) == 1 and path[0] == "query")
            v = {
                "metric": [g.metric()], "aggregate": ["sum", "max"] + ([5] if top else []), "aggregate_params": [None, gen.L(0.9)] + ([gen.L(gen.L(1))] if top else []),
                "filters": [None, gen.LL([g.mcond()]), gen.LL([])] + ([gen.L(5)] if top else []), "groupby": [None, g.mgroup()],
            }[k]
            v = r.choice(v)
        elif T == "MetricsScope":
            k = r.choice(["org_ids", "project_ids", "use_case_id"])
            v = r.choice([gen.L(1), gen.L(2, 3)]) if k != "use_case_id" else r.choice(["a", "b", None])
            if not path and r.random() < 0.3:
                v = r.choice(["zz", 5]) if k == "use_case_id" else gen.L("x")
        if k is None:
            return None
        return {"t": "edit", "path": path, "do": "attr", "k": k, "v": v}
    if kind == "dict":
        keys = [k for k, _ in sp["v"]]
        if owner == "DeleteQuery":
            if keys and r.random() < 0.4:
                return {"t": "edit", "path": path, "do": "delkey", "k": r.choice(keys)}
            return {"t": "edit", "path": path, "do": "key", "k": r.choice(keys + ["id", "extra"]), "v": r.choice([gen.L(1, 2), gen.L("a"), gen.LL([])])}
        if keys and r.random() < 0.3:
            return {"t": "edit", "path": path, "do": "delkey", "k": r.choice(keys)}
        return {"t": "edit", "path": path, "do": "key", "k": r.choice(keys + ["referrer", "n"]), "v": r.choice([1, "s", 7])}
    n = len(sp["v"])
    fresh = element(r, g, ctx, owner, field, sp)
    if owner in OWN and len(path) == OWN[owner] + (root["T"] == "MetricsQuery") and field in OWNF and r.random() < 0.3:
        # of the wrong kind, in a list the used object itself checks
        fresh = copy.deepcopy(r.choice([gen.O("Entity", name="events"), gen.D([["a", 1]]), gen.E("Op.EQ"), gen.O("Limit", limit=3)]))
    x = r.random()
    minlen = {"select": 0, "groupby": 0, "where": 0, "having": 0, "orderby": 0}.get(field, 1)
    if owner in ("And", "Or", "BooleanCondition"):
        minlen = 2
    if x < 0.3 and fresh is not None:
        return {"t": "edit", "path": path, "do": "append", "v": fresh}
    if x < 0.6 and fresh is not None and n:
        return {"t": "edit", "path": path, "do": "put", "i": r.randrange(n), "v": fresh}
    if x < 0.75 and n > minlen:
        return {"t": "edit", "path": path, "do": "pop", "i": r.randrange(n)}
    if x < 0.85 and n > 1:
        return {"t": "edit", "path": path, "do": "swap"}
    if minlen == 0 and n and field == "select":
        return {"t": "edit", "path": path, "do": "clear"}
    return None


OWN = {"Timeseries": 1, "Function": 1, "CurriedFunction": 1, "And": 1, "Or": 1, "BooleanCondition": 1, "LimitBy": 1, "Join": 1, "MetricsScope": 1, "Formula": 1}
OWNF = ("filters", "groupby", "parameters", "conditions", "columns", "relationships", "org_ids", "project_ids")


def element(r, g, ctx, owner, field, sp):
    """A well-formed new element for a list, by where the list sits."""
    if field in ("select", "groupby") and owner == "Query":
        return g.selectable(ctx)
    if field == "groupby":
        return gen.O("Column", name=r.choice(["environment", "release"]))
    if field in ("where", "having"):
        return g.cond(ctx)
    if field == "filters":
        return g.mcond()
    if field == "conditions":
        return g.condition(ctx) if r.random() < 0.7 else g.mcond()
    if field == "orderby":
        return gen.O("OrderBy", exp=g.column(ctx), direction=gen.E("Direction.DESC"))
    if field == "parameters" and owner in ("Function", "CurriedFunction"):
        return r.choice([g.column(ctx), g.literal(), g.function(ctx, 2)])
    if field == "parameters" and owner == "Formula":
        return r.choice([1, 2.5])
    if field in ("org_ids", "project_ids"):
        return r.randint(1, 9)
    if field == "columns":
        return g.column(ctx)
    if field == "array_join":
        return g.column(ctx)
    if field == "column_conditions":
        return r.choice([1, "z"])
    if field == "rhs" and all(not isinstance(v, dict) for v in sp["v"]):
        return r.choice([1, True, "new", 2.0])
    return None


for _c in (C06, C09, C13):
    props.ALL[_c.__name__] = _c
