"""Per-property workloads: a run index and the seed give one scenario."""
import copy
import random

from . import core, engine, gen, hot, pool, specs, vary

EXCS = ["KeyboardInterrupt", "MemoryError", "SystemExit", "SimTimeout", "SimSoftLimit", "TimeoutError"]

# parts of the three input languages, as they appear in a written-down call
MARKS = {
    "snql": ['"match": {"T": "Query"', '"match": {"T": "Join"', '"match": {"T": "Storage"', '"match": {"T": "Entity"', '"T": "CurriedFunction"',
             '"T": "Lambda"', '"T": "Or"', '"T": "And"', '"T": "bytes"', '"T": "dt"', '"totals"', '"limitby"', '"array_join"', '"having"', '"groupby"',
             '"orderby"', '"T": "DeleteQuery"', '"T": "Request"', '"T": "Flags"', '"data_model"', '"k": "tr"', '"k": "find"', '"k": "search"',
             '"k": "required"', '"k": "first"', '"m": "print"', '"m": "validate"', '"granularity"', '"sample"', '"T": "AliasedExpression"'],
    "mql": ['"T": "Formula"', '"T": "Timeseries"', '"T": "MetricsScope"', '"T": "Rollup"', '"k": "parse"', '"aggregate_params"', '"filters"', '"groupby"',
            '"T": "Request"', '"m": "print"', '"m": "validate"', '"T": "Or"', '"T": "And"', '"public_name"', '"mri"', '"T": "dt"', '"T": "Flags"'],
    "legacy": ['"conditions"', '"aggregations"', '"groupby"', '"having"', '"orderby"', '"limitby"', '"totals"', '"app_id"', '"from_date"', '"selected_columns"',
               '"sample"', '"arrayjoin"', '"granularity"', '"T": "dt"'],
}
# ... and those that can hold one another
NESTED = [("snql", '"match": {"T": "Query"'), ("snql", '"match": {"T": "Query"'), ("snql", '"T": "Or"'), ("snql", '"T": "Function"'), ("mql", '"T": "Formula"'), ("mql", '"k": "parse"'), ("legacy", '"conditions"')]


class Lab:
    """Corpus and oracle of one property's check, shared by all its runs."""

    mix = ["snql"]
    nfam = 150
    famsize = 4
    faults = False
    runs = {"quick": 2000, "thorough": 60000}
    max_ev = 14000
    probes = 2
    hot, hotfams, hotnames = [], [], []

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.oracle = core.Oracle()
        self.families = []

    def rng(self, i):
        return random.Random("%s/%s/%s" % (self.seed, self.prop, i))

    def prepare(self):
        g = gen.G("%s/%s/corpus" % (self.seed, self.prop), faults=self.faults)
        nfam = self.nfam * (4 if self.tier == "thorough" else 1)
        fams = [g.family(self.mix, self.famsize) for _ in range(nfam)]
        fams += self.extra_families(g)
        fams = [[o for o in f if o["k"] not in specs.MISSING] for f in fams]
        ops = [o for f in fams for o in f]
        infos = [None] * len(ops)

        def one(i):
            r = core.child(engine.count_events, ops[i])
            return r

        def got(i, r):
            if "crash" in r:
                raise core.HarnessError(r["crash"])
            infos[i] = r

        pool.pmap(one, len(ops), got)
        for op, r in zip(ops, infos):
            if r is None or "hang" in r:
                raise core.Hang(core.describe(op)[:800])
        self.oracle.load(ops, infos)
        for f in fams:
            f = [o for o in f if self.oracle.ev(o)["opcode"][1] <= self.max_ev]
            if len(f) > 1:
                self.families.append(f)
        self.accepted = sum(1 for r in infos if r["out"][0] == "ok")
        self.ops_total = len(ops)
        self.famof = {gen.key(o): f for f in self.families for o in f}
        self.probe()

    def probe_work(self):
        return [(f, o) for f in self.families for o in f[: self.probes]]

    def probe(self):
        """Find the places where the SDK changes lasting state (see hot.py)."""
        self.hot, self.hotfams = [], []
        work = self.probe_work()
        names, locs, fams = set(), set(), {}

        def one(i):
            return pool.forked(hot.probe, work[i][1])

        def got(i, r):
            if r.get("locs"):
                names.update(r["names"])
                locs.update(map(tuple, r["locs"]))
                fams[id(work[i][0])] = work[i][0]

        pool.pmap(one, len(work), got)
        if locs:
            self.hot = sorted(map(list, locs | hot.users(names)))
            self.hotfams = [f for f in self.families if id(f) in fams]
        self.hotnames = sorted(names)

    def extra_families(self, g):
        return []

    # -- choices ---------------------------------------------------------
    fresh = 0.4

    def new_family(self, r, want=None, mix=None, size=None):
        """A family no other run has, or None."""
        g = gen.G(r.random(), faults=self.faults)
        f = [o for o in g.family(mix or self.mix, r.choice([1, 2, 3]) if size is None else size, want) if o["k"] not in specs.MISSING]
        f = [o for o in f if self.oracle.ev(o)["opcode"][1] <= self.max_ev]
        for o in f:
            self.famnew[gen.key(o)] = f
        return f or None

    def special(self, r, nested=0, size=None):
        """A fresh family built round some part of the language, every part as
        likely as any other; its first call is one the SDK accepts."""
        for _ in range(6):
            mix = r.choice(self.mix)
            if r.random() < nested:
                mix, mark = r.choice([x for x in NESTED if x[0] in self.mix])
                f = self.new_family(r, lambda o: mark in gen.key(o) and o["k"] in ("call", "parse", "legacy") and o.get("m") != "validate", [mix], size)
                if f and self.oracle(f[0])[0] == "ok":
                    return f
                continue
            marks = [r.choice(MARKS[mix]), r.choice(MARKS[mix])][: r.choice([1, 1, 2])]
            f = self.new_family(r, lambda o: all(m in gen.key(o) for m in marks), [mix], size)
            if f and self.oracle(f[0])[0] == "ok":
                return f
        return None

    def pick_ops(self, r, n):
        """n operations, mostly from one family (near-identical calls)."""
        fams = self.hotfams if self.hotfams and r.random() < 0.6 else self.families
        fam = r.choice(fams)
        if r.random() < self.fresh:
            fam = (self.special(r) if r.random() < 0.3 else self.new_family(r)) or fam
        out = []
        stray = r.choice([0.2, 0.2, 0.2, 0.8])
        for _ in range(n):
            if r.random() < stray:
                fam = r.choice(fams)
            out.append(copy.deepcopy(r.choice(fam)))
        return out

    def gran(self, r, sc):
        x = r.random()
        if x < 0.65:
            sc["gran"], sc["deep"] = "opcode", False
        elif x < 0.85:
            sc["gran"], sc["deep"] = "opcode", True
        else:
            sc["gran"], sc["deep"] = "line", r.random() < 0.5
        return sc["gran"] + ("+" if sc["deep"] else "")

    def share(self, r, threads, n=1, ms=None):
        """Make up to n of the objects used by the threads' operations shared:
        the threads then use the very same object."""
        shared = []
        cands = [op for ops in threads for op in ops if isinstance(op.get("o"), dict)]
        r.shuffle(cands)
        for op in cands[:n]:
            spec = copy.deepcopy(op["o"])
            # a shared object must be constructible: build is outside the calls
            if self.oracle({"k": "build", "o": spec})[0] != "ok":
                continue
            idx = len(shared)
            shared.append(spec)
            for ops in threads:
                for k, o2 in enumerate(ops):
                    if r.random() < 0.6 and o2["k"] == op["k"] and "o" in o2:
                        ops[k] = dict(op, o={"T": "sh", "i": idx})
                        if op["k"] == "call" and r.random() < 0.5:
                            ops[k]["m"] = r.choice(ms or methods(spec))
            op2 = dict(op, o={"T": "sh", "i": idx})
            threads[r.randrange(len(threads))].append(op2)
        return shared

    def share_tools(self, r, threads, shared):
        """Sometimes give several threads one translator or finder object."""
        for cls, args, kind in (("Translation", {}, "tr"), ("ExpressionFinder", {"exp_type": {"T": "type", "v": "Column"}}, "find")):
            if not any(o["k"] == kind for ops in threads for o in ops):
                continue
            if r.random() < 0.6:
                idx = len(shared)
                shared.append({"T": cls, "a": args})
                for ops in threads:
                    for k, o in enumerate(ops):
                        if o["k"] == kind and not o.get("mql") and (kind == "tr" or o.get("t") == "Column"):
                            ops[k] = dict(o, via={"T": "sh", "i": idx})

    def evs(self, sc, op, gk):
        """(lowest, highest) event index at which a fault inside op makes sense."""
        sub = specs.subst(op, sc.get("shared", []))
        b, n = self.oracle.ev(sub)[gk]
        if isinstance(op.get("o"), dict) and op["o"].get("T") == "sh":
            return 1, max(1, n - b)
        return 1, max(1, n)

    def fault_at(self, r, sc, op, gk):
        lo, hi = self.evs(sc, op, gk)
        sub = specs.subst(op, sc.get("shared", []))
        b = self.oracle.ev(sub)[gk][0]
        if r.random() < 0.45:
            # some place of some function that runs, however short its part is
            shared = isinstance(op.get("o"), dict) and op["o"].get("T") == "sh"
            col = ("line", "opcode", "line+", "opcode+").index(gk)
            sp = [s for s in self.oracle.ev(sub)["spots"] if s[0] or gk.endswith("+")]
            x = r.random()
            if x < 0.35:
                sp = [s for s in sp if s[1]] or sp
            elif x < 0.7:
                # inside a function called from itself
                rec = sorted(set(s[3] for s in sp if s[3]))
                if rec:
                    rec = r.choice(rec)
                    sp = [s for s in sp if s[3] == rec]
            if sp:
                e = r.choice(r.choice(sp)[2])[col]
                if shared:
                    e -= b
                if e > 0:
                    return min(hi, max(1, e + r.choice([0, 0, 0, 1, 2])))
        if b < hi and r.random() < 0.6:
            lo = b + 1 if not (isinstance(op.get("o"), dict) and op["o"].get("T") == "sh") else 1
        return r.randint(min(lo, hi), hi)

    def when(self, r, sc, op, gk):
        """Where in op a fault strikes: at an event, or at some hot place."""
        if self.hot and r.random() < 0.5:
            sc["hot"] = self.hot
            return {"hotp": r.choice([0.5, 0.2, 0.05, 0.02]), "delay": r.choice([0, 0, 1, 2, 5, 20])}
        return {"at": self.fault_at(r, sc, op, gk)}

    def strategy(self, r, sc, gk):
        total = sum(self.evs(sc, o, gk)[1] for ops in sc["threads"] for o in ops)
        x = r.random()
        if len(sc["threads"]) == 1:
            st = {"s": "opb"}
        elif self.hot and r.random() < 0.5:
            sc["hot"] = self.hot
            st = {"s": "hot", "p": r.choice([0.7, 0.3, 0.1, 0.03])}
        elif x < 0.4:
            st = {"s": "pct", "span": total, "cuts": r.randint(1, 8)}
        elif x < 0.85:
            st = {"s": "geo", "mean": r.choice([3, 10, 30, 100, 300, 1000])}
        elif x < 0.92:
            st = {"s": "opb"}
            sc["op_yield"] = True
        else:
            st = {"s": "fixed", "at": r.randint(1, max(1, self.evs(sc, sc["threads"][0][0], gk)[1]))}
        if st["s"] == "geo" and st["mean"] * 1500 < total:
            st["mean"] = max(3, total // 1500)
        sc["strategy"] = st
        sc["cap"] = 20 * total + 100000

    def base(self, r, i):
        self.famnew = {}  # families made for this run alone
        return {
            "type": "sim", "prop": self.prop, "seed": "%s/%s/%s" % (self.seed, self.prop, i),
            "objects": self.prop in ("C03", "C04", "C05"), "heap": r.randrange(1 << 20), "gc": r.choice([None, None, None, 0, 50]),
        }

    def threads(self, r, lo=2, hi=4, per=3):
        n = r.choice([x for x in (2, 2, 2, 3, 3, 4) if lo <= x <= hi] or [lo])
        k = r.randint(1, per)
        ops = self.pick_ops(r, n * k)
        return [ops[t * k : (t + 1) * k] for t in range(n)]

    def soak(self, r, i, length):
        sc = self.base(r, i)
        sc["type"] = "soak"
        ops = []
        fams = [r.choice(self.families) for _ in range(r.choice([3, 10, 40, len(self.families)]))]
        while len(ops) < length:
            f = r.choice(fams)
            for _ in range(r.randint(1, 4)):
                ops.append(copy.deepcopy(r.choice(f)))
        if r.random() < 0.25:
            # floods of distinct calls between the judged ones
            small = [o for f in self.families for o in f if self.oracle.ev(o)["opcode"][1] < 4000]
            for _ in range(r.choice([1, 2, 4])):
                f = copy.deepcopy(r.choice(small))
                ops.insert(r.randint(0, len(ops)), {"k": "flood", "flood": f, "n": r.choice([150, 600, 1500])})
        th = [ops]
        sc["shared"] = []
        if r.random() < 0.5:
            shared = []
            for op in r.sample(ops, 6):
                if isinstance(op.get("o"), dict) and self.oracle({"k": "build", "o": op["o"]})[0] == "ok":
                    idx = len(shared)
                    shared.append(copy.deepcopy(op["o"]))
                    k0 = gen.key(op["o"])
                    for k, o in enumerate(ops):
                        if isinstance(o.get("o"), dict) and gen.key(o["o"]) == k0:
                            ops[k] = dict(o, o={"T": "sh", "i": idx})
            sc["shared"] = shared
            self.share_tools(r, th, sc["shared"])
        sc["ops"] = ops
        return sc

    def census(self, r, i):
        sc = self.base(r, i)
        sc["type"] = "census"
        sc["bases"] = []
        sc["order"] = r.randrange(1 << 30)
        for _ in range(r.choice([1, 1, 2])):
            for _ in range(30):
                f = self.new_family(r) if r.random() < 0.3 else r.choice(self.families)
                op = r.choice(f) if f else None
                if op and self.oracle.ev(op)["opcode"][1] < 5000 and vary.atoms(op):
                    break
            else:
                continue
            atoms = vary.atoms(op)
            p = r.choice([0.15, 0.5, 1.0])
            keep = [a for a in atoms if r.random() < p] or [r.choice(atoms)]
            sc["bases"].append({"op": copy.deepcopy(op), "keep": keep, "n": r.choice([300, 800, 1600])})
        return sc

    def scenario(self, i):
        raise NotImplementedError


def methods(spec):
    t = spec["T"]
    if t == "Query":
        return ["validate", "serialize", "print", "str", "serialize"]
    if t == "Request":
        return ["validate", "to_dict", "serialize", "print"]
    if t == "DeleteQuery":
        return ["validate", "serialize", "print"]
    if t == "MetricsQuery":
        return ["validate", "serialize", "print", "str", "serialize"]
    return ["str"]


class C01(Lab):
    mix = ["snql"]
    runs = {"quick": 2600, "thorough": 80000}

    def scenario(self, i):
        r = self.rng(i)
        if i % 13 == 0:
            return self.soak(r, i, r.choice([60, 200, 600]))
        if i % 13 == 7:
            return self.census(r, i)
        sc = self.base(r, i)
        sc["threads"] = self.threads(r)
        sc["shared"] = []
        if r.random() < 0.5:
            sc["shared"] = self.share(r, sc["threads"], r.choice([1, 1, 2]))
        self.share_tools(r, sc["threads"], sc["shared"])
        gk = self.gran(r, sc)
        self.strategy(r, sc, gk)
        return sc


class C02(C01):
    mix = ["mql"]


class C03(Lab):
    mix = ["legacy"]
    nfam = 60
    max_ev = 40000
    runs = {"quick": 1300, "thorough": 40000}

    def scenario(self, i):
        r = self.rng(i)
        if i % 13 == 0:
            return self.soak(r, i, r.choice([40, 120, 300]))
        if i % 26 == 7:
            return self.census(r, i)
        sc = self.base(r, i)
        n = r.choice([1, 1, 2, 2, 3])
        k = r.choice([1, 2, 2, 3])
        ops = self.pick_ops(r, n * k)
        sc["threads"] = [ops[t * k : (t + 1) * k] for t in range(n)]
        sc["shared"] = self.share(r, sc["threads"], r.choice([1, 1, 1, 2]))
        gk = self.gran(r, sc)
        sc["check_ops"] = True
        sc["check_switch"] = True
        sc["faults"] = []
        if r.random() < 0.5:
            t = r.randrange(len(sc["threads"]))
            o = r.randrange(len(sc["threads"][t]))
            op = sc["threads"][t][o]
            sc["faults"].append({"kind": "exc", "exc": r.choice(EXCS), "thread": t, "op": o, **self.when(r, sc, op, gk)})
            if o + 1 == len(sc["threads"][t]):
                sc["threads"][t].append(copy.deepcopy(op))  # retry
        self.strategy(r, sc, gk)
        return sc


class C04(Lab):
    mix = ["snql", "mql", "legacy"]
    faults = True
    runs = {"quick": 2600, "thorough": 80000}

    def scenario(self, i):
        r = self.rng(i)
        if i % 11 == 0:
            return self.printer(r, i)
        if i % 11 == 1:
            return self.stack(r, i)
        if i % 11 == 2:
            return self.again(r, i)
        if i % 11 == 3:
            return self.handlers(r, i) or self.again(r, i)
        sc = self.base(r, i)
        n = r.choice([1, 1, 1, 2, 2, 3])
        k = r.choice([1, 2, 3])
        ops = self.pick_ops(r, n * k)
        sc["threads"] = [ops[t * k : (t + 1) * k] for t in range(n)]
        sc["shared"] = self.share(r, sc["threads"], 1) if r.random() < 0.6 else []
        gk = self.gran(r, sc)
        sc["faults"] = []
        sc["check_ops"] = True
        for _ in range(r.choice([1, 1, 2, 3])):
            t = r.randrange(len(sc["threads"]))
            o = r.randrange(len(sc["threads"][t]))
            if any(f["thread"] == t and f["op"] == o for f in sc["faults"]):
                continue
            op = sc["threads"][t][o]
            sc["faults"].append({"kind": "exc", "exc": r.choice(EXCS), "thread": t, "op": o, **self.when(r, sc, op, gk)})
        for f in sc["faults"]:
            th = sc["threads"][f["thread"]]
            if f["op"] + 1 == len(th):
                th.append(copy.deepcopy(th[f["op"]]))  # retry
        if r.random() < 0.5:
            sc["threads"][0] += self.pick_ops(r, 2)
        self.strategy(r, sc, gk)
        return sc

    def by_site(self):
        """Operations by the try and with blocks of the SDK they pass through."""
        if not hasattr(self, "sites"):
            self.sites = {}
            for f in self.families:
                for o in f:
                    for s in self.oracle.ev(o)["spots"]:
                        if s[1]:
                            l = self.sites.setdefault(s[1], [])
                            if not l or l[-1] is not o:
                                l.append(o)
            self.site_names = sorted(self.sites)
        return self.site_names

    def handlers(self, r, i):
        """An interruption that arrives inside some try or with block."""
        names = self.by_site()
        if not names:
            return None
        site = r.choice(names)
        op = copy.deepcopy(r.choice(self.sites[site]))
        sc = self.base(r, i)
        gk = self.gran(r, sc)
        sp = [s for s in self.oracle.ev(op)["spots"] if s[1] == site]
        if not any(s[0] for s in sp):
            sc["deep"] = True
            gk = sc["gran"] + "+"
        sp = [s for s in sp if s[0] or sc["deep"]]
        col = ("line", "opcode", "line+", "opcode+").index(gk)
        sc["check_ops"] = True
        sc["shared"] = []
        sc["threads"] = [[]]
        sc["faults"] = []
        for k in range(r.choice([2, 4, 6])):
            e = r.choice(r.choice(sp)[2])[col]
            sc["threads"][0].append(copy.deepcopy(op))
            if e > 0:
                sc["faults"].append({"kind": "exc", "exc": r.choice(EXCS), "thread": 0, "op": k, "at": e + r.choice([0, 0, 1])})
        sc["threads"][0] += [copy.deepcopy(op)] + self.pick_ops(r, 1)
        self.strategy(r, sc, gk)
        return sc

    def again(self, r, i):
        """One thread abandons many calls, then makes some that must succeed."""
        sc = self.base(r, i)
        sc["gran"], sc["deep"] = "line", False
        sc["check_ops"] = True
        sc["faults"] = []
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            f = self.special(r, 0.6, 0) or r.choice(self.families)
            ops.append(copy.deepcopy(f[0]))
        bad = [o for f in self.families for o in f if self.oracle(o)[0] != "ok"]
        if bad and r.random() < 0.3:
            ops += [copy.deepcopy(r.choice(bad))]
        m = r.choice([20, 20, 45, 110])
        th = []
        same = r.random() < 0.6
        at = {}
        for k in range(m):
            j = r.randrange(len(ops))
            op = ops[j]
            th.append(copy.deepcopy(op))
            if self.oracle(op)[0] == "ok" or r.random() < 0.3:
                if not (same and j in at):
                    at[j] = self.fault_at(r, sc, op, "line")
                sc["faults"].append({"kind": "exc", "exc": r.choice(EXCS), "thread": 0, "op": k, "at": at[j]})
        th += copy.deepcopy(ops) + [copy.deepcopy((self.special(r, 0.3, 0) or r.choice(self.families))[0])] + self.pick_ops(r, 1)
        sc["threads"] = [th]
        sc["shared"] = self.share(r, sc["threads"], 1) if r.random() < 0.3 else []
        if sc["shared"]:
            n = len(th)
            sc["faults"] = [f for f in sc["faults"] if f["op"] < n]
        self.strategy(r, sc, "line")
        return sc

    def printer(self, r, i):
        """One caller keeps a printer/translator; some prints fail naturally."""
        sc = self.base(r, i)
        sc["type"] = "soak"
        sc["shared"] = [
            {"T": "Printer", "a": {"pretty": r.random() < 0.3}},
            {"T": "Translation", "a": {}},
            {"T": "MQLPrinter", "a": {}},
        ]
        ops = []
        g = gen.G("%s/%s/%s/p" % (self.seed, self.prop, i), faults=True)
        for _ in range(r.choice([4, 10, 20])):
            x = r.random()
            if x < 0.6:
                q = g.query(kind=r.choice(["join", "join", "entity", "sub"]))
                op = {"k": "print", "via": {"T": "sh", "i": 0}, "o": q}
            elif x < 0.8:
                op = {"k": "print", "via": {"T": "sh", "i": 2}, "o": g.metrics_query()}
            else:
                op = {"k": "tr", "via": {"T": "sh", "i": 1}, "o": g.function({"names": gen.COLS})}
            ops.append(op)
            if r.random() < 0.3:
                ops.append(g.mutate(op))
        sc["ops"] = [o for o in ops if o["k"] not in specs.MISSING]
        return sc

    def stack(self, r, i):
        """The caller is deep in its own stack: the call runs out of it."""
        sc = self.base(r, i)
        sc["type"] = "stack"
        ops = self.pick_ops(r, r.choice([2, 3, 4]))
        sc["shared"] = []
        th = [ops]
        if r.random() < 0.6:
            sc["shared"] = self.share(r, th, 1)
        sc["steps"] = []
        for op in th[0]:
            if r.random() < 0.7:
                sc["steps"].append([op, r.randint(1, 70)])
            if r.random() < 0.7:
                sc["steps"].append([op, None])
        sc["steps"].append([th[0][0], None])
        return sc


@core.kind("stack")
def exec_stack(sc):
    import sys

    shared = [specs.build(s) for s in sc["shared"]]
    base = specs.snapshot(shared)
    outs = []
    probs = []
    for op, room in sc["steps"]:
        if room is None:
            outs.append(specs.run_op(op, shared))
            continue
        depth = 0
        f = sys._getframe()
        while f:
            depth += 1
            f = f.f_back
        old = sys.getrecursionlimit()
        try:
            sys.setrecursionlimit(depth + 3 + room)
            try:
                raw = specs.execute(op, shared)
                ok = True
            except BaseException as e:
                ok = False
                exc = e
        finally:
            sys.setrecursionlimit(old)
        if ok:
            outs.append(["ok", specs.canon(raw)])
        else:
            outs.append(["err", type(exc).__name__, ""])
            exc = None
        s = specs.snapshot(shared)
        if s != base and not probs:
            probs.append(["changed-by-call", engine.diff(base, s)])
    end = specs.snapshot(shared)
    if end != base and not probs:
        probs.append(["changed-at-end", engine.diff(base, end)])
    return {"outcomes": outs, "problems": probs, "fired": [["stack", "", "", 0, i] for i, (op, room) in enumerate(sc["steps"]) if room is not None and outs[i][0] == "err"]}


@core.judge_of("stack")
def judge_stack(sc, res, oracle):
    for i, (op, room) in enumerate(sc["steps"]):
        got = res["outcomes"][i]
        sub = specs.subst(op, sc["shared"])
        want = oracle(sub)
        if got == want or (room is not None and got[0] == "err"):
            continue
        return core.V("result-differs" if room is None else "partial-result", "step %d (stack room %s): %s" % (i, room, core.compare(sub, got, want)))
    if res["problems"]:
        return core.V("object-changed", core.short(res["problems"]))
    return None


class C05(Lab):
    mix = ["snql", "mql"]
    runs = {"quick": 1500, "thorough": 50000}

    def pick_ops(self, r, n):
        """Every kind of use as often as every other."""
        if r.random() < 0.4:
            return Lab.pick_ops(self, r, n)
        kind = lambda o: o["k"] + ("/" + o["o"]["T"] if o["k"] == "call" else "")
        if not hasattr(self, "by_kind"):
            self.by_kind = {}
            for f in self.families:
                self.by_kind.setdefault(kind(f[0]), []).append(f)
            self.kinds = sorted(self.by_kind)
        k = r.choice(self.kinds)
        f = r.choice(self.by_kind[k])
        if r.random() < 0.6:
            f = self.new_family(r, lambda o: kind(o) == k) or f
        return [copy.deepcopy(r.choice(f)) for _ in range(n)]

    def scenario(self, i):
        r = self.rng(i)
        sc = self.base(r, i)
        n = r.choice([1, 2, 2, 3])
        ops = self.pick_ops(r, n * 2)
        sc["threads"] = [ops[t * 2 : (t + 1) * 2] for t in range(n)]
        sc["shared"] = self.share(r, sc["threads"], r.choice([1, 2]))
        self.extra_uses(r, sc)
        if r.random() < 0.2:
            gk = self.gran(r, sc)
            sc["check_switch"] = True
        else:
            sc["gran"], sc["deep"] = "line", False
            gk = "line"
            sc["watch"] = True
        sc["check_ops"] = True
        self.strategy(r, sc, gk)
        return sc

    def extra_uses(self, r, sc):
        """Comparison, hash, search, derivation and request conversion of the shared objects."""
        for idx, spec in enumerate(sc["shared"]):
            for _ in range(r.randint(1, 3)):
                ref = {"T": "sh", "i": idx}
                t = spec["T"]
                x = r.random()
                if x < 0.2:
                    op = {"k": "call", "m": "eq", "o": ref, "y": r.choice([ref, copy.deepcopy(spec)])}
                elif x < 0.3:
                    op = {"k": "call", "m": "hash", "o": ref}
                elif x < 0.45 and t in ("Query", "MetricsQuery"):
                    f, x_ = setcall(r, t)
                    op = {"k": "set", "o": ref, "f": f, "x": x_}
                elif x < 0.55 and t == "Query":
                    op = {"k": r.choice(["search", "required"]), "o": ref, "t": "Column"}
                elif x < 0.8 and t in ("Query", "MetricsQuery", "DeleteQuery"):
                    op = {"k": "call", "m": r.choice(["to_dict", "serialize", "print", "validate"]), "o": {"T": "Request", "a": {"dataset": "events", "app_id": "x", "query": ref}}}
                elif t in ("Query", "MetricsQuery", "Request", "DeleteQuery"):
                    op = {"k": "call", "m": r.choice(methods(spec)), "o": ref}
                elif t in ("list", "tuple"):
                    op = {"k": "first", "o": ref}
                else:
                    op = {"k": r.choice(["tr", "tr", "find"]), "o": ref, "t": "Column"}
                th = r.choice(sc["threads"])
                if op["k"] not in specs.MISSING:
                    th.insert(r.randint(0, len(th)), op)


QSETS = ["select", "groupby", "where", "having", "orderby", "limit", "offset", "limitby", "granularity", "totals", "array_join", "match"]


def setcall(r, t, g=None):
    g = g or gen.G(r.random())
    ctx = {"names": ["title", "user", "timestamp", "event_id"]}
    L = gen.LL
    if t == "Query":
        f = r.choice(QSETS)
        bad = r.random() < 0.12
        if f == "select":
            v = L(g.several(lambda: g.selectable(ctx), 1, 3)) if not bad else r.choice([L([]), L([1]), 5, L(["x"])])
        elif f == "groupby":
            v = L(g.several(lambda: g.selectable(ctx), 0, 2)) if not bad else L([None])
        elif f in ("where", "having"):
            v = L(g.several(lambda: g.cond(ctx), 0, 2)) if not bad else r.choice([L([1]), g.condition(ctx)])
        elif f == "orderby":
            v = L([gen.O("OrderBy", exp=g.column(ctx), direction=gen.E(r.choice(["Direction.ASC", "Direction.DESC"])))]) if not bad else L([g.column(ctx)])
        elif f == "limit":
            v = r.choice([1, 10, 500]) if not bad else r.choice([0, "x", 10001, None])
        elif f == "offset":
            v = r.choice([0, 3, 50]) if not bad else r.choice([-1, "x"])
        elif f == "limitby":
            v = gen.O("LimitBy", columns=L([g.column(ctx)]), count=r.choice([1, 5])) if not bad else 7
        elif f == "granularity":
            v = r.choice([1, 60, 3600]) if not bad else r.choice([0, "x"])
        elif f == "totals":
            v = r.choice([True, False]) if not bad else r.choice(["x", 1])
        elif f == "array_join":
            v = L([g.column(ctx)]) if not bad else L([1])
        else:
            v = r.choice([g.entity(), g.entity(), g.query(kind="entity"), g.query(kind="join")["a"]["match"], gen.O("Storage", name="errors_ro")]) if not bad else r.choice(["events", 5])
        return "set_" + f, [v]
    if t == "MetricsQuery":
        f = r.choice(["query", "start", "end", "rollup", "scope", "limit", "offset", "indexer_mappings", "extrapolate"])
        bad = r.random() < 0.12
        if f == "query":
            v = r.choice([g.timeseries(), g.formula(), g.mql()]) if not bad else r.choice([5, gen.L(1)])
        elif f in ("start", "end"):
            v = {"T": "dt", "v": [2023, r.randint(1, 12), 3, 4, 5, 6], "tz": None} if not bad else "2023"
        elif f == "rollup":
            v = g.rollup() if not bad else 60
        elif f == "scope":
            v = g.scope() if not bad else 1
        elif f == "limit":
            v = r.choice([1, 10]) if not bad else r.choice([0, "x"])
        elif f == "offset":
            v = r.choice([0, 3]) if not bad else r.choice([-1, "x"])
        elif f == "extrapolate":
            v = r.choice([True, False]) if not bad else "x"
        else:
            v = gen.D([["a", 1], ["b", r.randint(2, 5)]]) if not bad else 3
        return "set_" + f, [v]
    raise AssertionError(t)


class C08(Lab):
    mix = ["snql", "mql", "legacy"]
    runs = {"quick": 2600, "thorough": 80000}

    def scenario(self, i):
        r = self.rng(i)
        sc = self.base(r, i)
        sc["errkind"] = True
        n = r.choice([1, 1, 1, 2])
        k = r.choice([1, 1, 2])
        ops = self.pick_ops(r, n * k)
        sc["threads"] = [ops[t * k : (t + 1) * k] for t in range(n)]
        sc["shared"] = self.share(r, sc["threads"], 1) if r.random() < 0.4 else []
        if r.random() < 0.3:
            self.share_tools(r, sc["threads"], sc["shared"])
        gk = self.gran(r, sc)
        sc["faults"] = []
        if r.random() < 0.25:
            self.callbacks(r, sc, i)
        for j in range(r.choice([1, 1, 2, 3])):
            t = r.randrange(len(sc["threads"]))
            o = r.randrange(len(sc["threads"][t]))
            op = sc["threads"][t][o]
            inner = self.inner(r, sc, op)
            sc["faults"].append({"kind": "nest", "id": "n%d" % j, "thread": t, "op": o, **self.when(r, sc, op, gk), "ops": inner})
        self.strategy(r, sc, gk)
        return sc

    def inner(self, r, sc, op):
        k = gen.key(specs.subst(op, sc["shared"]))
        fam = self.famnew.get(k) or self.famof.get(k)
        out = []
        for _ in range(r.choice([1, 1, 2])):
            x = r.random()
            if x < 0.3:
                out.append(copy.deepcopy(op))  # the very same call, on the same object if shared
            elif x < 0.7 and fam:
                out.append(copy.deepcopy(r.choice(fam)))
            else:
                out += self.pick_ops(r, 1)
        return out

    def callbacks(self, r, sc, i):
        """Caller data (a Sequence, a tzinfo) that itself calls the SDK."""
        g = gen.G("%s/%s/%s/cb" % (self.seed, self.prop, i))
        sc["callbacks"] = {}
        t = sc["threads"][0]
        ctx = {"names": ["title", "user"]}
        params = [g.column(ctx), 1, {"T": "dt", "v": [2021, 1, 2, 3, 4, 5], "tz": {"m": 60, "cb": 0}}]
        fn = gen.O("Function", function="f", parameters={"T": "seq", "v": params, "cb": 1}, alias="a")
        q = g.query(kind=r.choice(["entity", "join", "sub"]))
        if q["a"]["match"]["T"] == "Join":
            fn["a"]["parameters"]["v"][0] = gen.O("Column", name="title", entity=copy.deepcopy(q["a"]["match"]["a"]["relationships"]["v"][0]["a"]["lhs"]))
        if q["a"]["match"]["T"] == "Query":
            fn["a"]["parameters"]["v"][0] = 7
        q["a"]["select"]["v"].append(fn)
        q["a"].setdefault("where", gen.LL([]))["v"].append(gen.O("Condition", lhs=copy.deepcopy(fn), op=gen.E("Op.EQ"), rhs=1))
        op = {"k": "call", "o": q, "m": r.choice(["serialize", "print", "validate"])}
        t.append(op)
        for k in ("0", "1"):
            sc["callbacks"][k] = self.pick_ops(r, 1) if r.random() < 0.7 else [{"k": "call", "o": strip_cb(q), "m": "serialize"}]


def strip_cb(x):
    if isinstance(x, dict):
        return {k: strip_cb(v) for k, v in x.items() if k != "cb"}
    if isinstance(x, list):
        return [strip_cb(v) for v in x]
    return x


class C10(Lab):
    mix = ["snql", "mql", "legacy"]
    runs = {"quick": 2200, "thorough": 70000}

    def scenario(self, i):
        r = self.rng(i)
        sc = self.base(r, i)
        pile = r.random() < 0.25  # many callers stopped inside the same kind of call
        if pile:
            n = r.choice([4, 5, 6, 9])
            f = r.choice(self.families)
            if r.random() < 0.3:
                f = self.new_family(r) or f
            f = [o for o in f if o["k"] == f[0]["k"] and self.oracle(o)[0] == "ok"] or f
            sc["threads"] = [[copy.deepcopy(r.choice(f))] for _ in range(n)]
        else:
            sc["threads"] = self.threads(r, 2, 4, 3)
        sc["shared"] = self.share(r, sc["threads"], 1) if r.random() < 0.4 else []
        self.share_tools(r, sc["threads"], sc["shared"])
        gk = self.gran(r, sc)
        sc["faults"] = []
        n = len(sc["threads"])
        for t in r.sample(range(n), n - 1 if pile else r.randint(0, n - 1)):
            o = r.randrange(len(sc["threads"][t]))
            sc["faults"].append({"kind": "stall", "thread": t, "op": o, **self.when(r, sc, sc["threads"][t][o], gk)})
        for t in range(n):
            if r.random() < 0.15:
                o = r.randrange(len(sc["threads"][t]))
                sc["faults"].append({"kind": "clock", "by": r.choice([-3600.0, 5.0, 86400.0]), "thread": t, "op": o, **self.when(r, sc, sc["threads"][t][o], gk)})
        sc["bound"] = {"mul": 3, "add": 500}
        self.strategy(r, sc, gk)
        return sc


ALL = {c.__name__: c for c in (C01, C02, C03, C04, C05, C08, C10)}
