"""C07 (ambient environment) and C12 (copies and other processes): real separate
interpreters whose every ambient source the simulator sets, and a simulated
network between them."""
import copy
import json
import os

from . import core, gen, nodes, pool, props, specs
from .core import V

# ---------------------------------------------------------------------------
# C07

ZONES = ["UTC", "XXX-5:30", "YYY8", "EST5EDT,M3.2.0,M11.1.0", "ZZZ-12:45ZZD,M9.5.0/2:45,M4.1.0/3:45", "QQQ-14", "WWW12", "Asia/Tokyo", "America/Sao_Paulo", None]
LOCALES = [{}, {"LC_ALL": "C"}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C", "PYTHONUTF8": "1"}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "de_DE.UTF-8"}]
NOISE = ["DEBUG", "SNUBA_DEBUG", "SENTRY_DSN", "SNUBA_SETTINGS", "HOME", "USER", "LANG", "NO_COLOR", "COLUMNS", "SNUBA_SDK_DEBUG", "ENV", "CI", "HOSTNAME", "PYTEST_CURRENT_TEST", "SENTRY_ENVIRONMENT"]


def unordered(x):
    """Whether the input has an unordered part (its order is not given)."""
    if isinstance(x, dict):
        return x.get("T") == "set" or any(unordered(v) for v in x.values())
    if isinstance(x, list):
        return any(unordered(v) for v in x)
    return False


def config(r):
    env = dict(r.choice(LOCALES))
    z = r.choice(ZONES)
    if z:
        env["TZ"] = z
    for n in r.sample(NOISE, r.choice([0, 0, 3, 8])):
        env[n] = r.choice(["1", "", "true", "0", "x", "/nonexistent"])
    cfg = {
        "hash": r.choice([0, 1, 2, 3, r.randrange(4294967295)]), "env": env, "cwd": r.choice(["/", "/tmp", "/usr", "fresh", "gone"]),
        "gc": r.choice([None, None, 0, 1, 50]), "heap": r.randrange(1 << 30), "locale": r.choice([None, "", "C", "C.UTF-8"]) if "de_DE.UTF-8" not in env.values() else None,
        "answer": r.choice([None, None, "1", "true", "0", "", "no", "5", "DEBUG", "-"]),
        "shim": {"SIM_EPOCH": r.choice([0, 1, 86399, 946684799, 1600000000, 1711846800, 4102444800, r.randrange(2 ** 33)]), "SIM_CLOCK": r.choice([0, 1, 2, 3]), "SIM_RANDOM": r.randrange(1, 1 << 31)},
    }
    if r.random() < 0.4:
        cfg["shim"]["SIM_NUMBERS"] = "1"
    if r.random() < 0.3:
        env["PYTHONOPTIMIZE"] = r.choice(["1", "2"])
    cfg["tty"] = r.random() < 0.3
    cfg["from"] = r.choice([None, None, "thread", "loop", "handler", "deep", "generator", "profiled"])
    if r.random() < 0.5:
        cfg["decimal"] = [r.choice([1, 3, 6, 60]), r.choice(["ROUND_UP", "ROUND_DOWN", "ROUND_CEILING", "ROUND_HALF_DOWN"])]
    return cfg


@core.kind("env")
def exec_env(sc):
    n = None
    try:
        n = nodes.Node(sc["cfg"], sc.get("timeout", 120.0))
        if "import" in n.hello:
            return {"outcomes": [], "import": n.hello["import"]}
        outs = []
        for k in range(0, len(sc["ops"]), 20):
            outs += n.ask({"c": "ops", "ops": sc["ops"][k : k + 20], "from": sc["cfg"].get("from")})
        asked = n.ask({"c": "asked"})
    except nodes.NodeHang:
        return {"hang": True}
    except nodes.NodeDied as e:
        return {"died": str(e)}
    finally:
        if n:
            n.kill()
    c = sc["cfg"]
    fc = {"process-with-own-hash-seed": 1, "call-order-shuffled": 1}
    if nodes.shim():
        fc["clock-set"] = fc["random-source-set"] = 1
        if c["shim"]["SIM_CLOCK"] in (2, 3):
            fc["clock-jumps"] = 1
        if c["shim"]["SIM_CLOCK"] == 1:
            fc["clock-stopped"] = 1
        if "SIM_NUMBERS" in c["shim"]:
            fc["locale-number-format"] = 1
    if c["env"].get("TZ"):
        fc["time-zone"] = 1
    if c["env"].get("PYTHONOPTIMIZE"):
        fc["assertions-off"] = 1
    if c.get("tty"):
        fc["terminal-output"] = 1
    if c.get("from"):
        fc["called-from-" + c["from"]] = 1
    if c.get("decimal"):
        fc["decimal-context"] = 1
    if c["cwd"] == "gone":
        fc["working-directory-removed"] = 1
    if c.get("answer") is not None:
        fc["hostile-environment-variables"] = 1
    return {"outcomes": [core._h(o if o[0] == "ok" else o[:2]) for o in outs], "ok": [o[0] == "ok" for o in outs], "fault_counts": fc, "asked": asked, "ident": c, "nontrivial": True}


@core.judge_of("env")
def judge_env(sc, res, oracle):
    if res.get("import"):
        return V("import-fails", "importing the SDK fails in this environment: %s" % res["import"])
    for i, (op, h) in enumerate(zip(sc["ops"], res["outcomes"])):
        want = oracle(op)
        if want[0] == "err" and want[1] == "AssertionError" and sc["cfg"]["env"].get("PYTHONOPTIMIZE"):
            if res["ok"][i]:
                return V("accepted", "with assertions off, call %d of %d succeeds: %s" % (i, len(sc["ops"]), core.short(op)), op=i)
            continue
        if h != core._h(want if want[0] == "ok" else want[:2]):
            return V("result-differs", "in this environment, call %d of %d: %s" % (i, len(sc["ops"]), core.compare(op, [h], want)), op=i)
    return None


class C07(props.Lab):
    mix = ["snql", "mql", "legacy"]
    runs = {"quick": 320, "thorough": 12000}
    nfam = 260
    timeout = 300.0
    per = 120

    def scenario(self, i):
        r = self.rng(i)
        ops = [o for f in self.families for o in f if not unordered(o) and o.get("m") != "hash"]
        ops = r.sample(ops, min(len(ops), self.per))
        return {"type": "env", "prop": self.prop, "cfg": config(r), "ops": copy.deepcopy(ops)}

    def extra_coverage(self):
        return {"clock_and_random_shim": bool(nodes.shim())}

    def extra_families(self, g):
        """Inputs whose output would show an unordered container or local time."""
        out = []
        for _ in range(40):
            cols = [gen.O("Column", name=n) for n in g.r.sample(["zeta", "alpha", "mid", "beta", "omega", "kappa", "tags[b]", "tags[a]"], 6)]
            q = gen.O("Query", match=gen.O("Entity", name="events"), select=gen.LL(cols[:4]), groupby=gen.LL(cols[2:6]), where=gen.LL([gen.O("Condition", lhs=cols[0], op=gen.E("Op.IN"), rhs=gen.U(g.r.sample(["q", "w", "e", "r", "t", "y"], 5))), gen.O("Condition", lhs=gen.O("Column", name="timestamp"), op=gen.E("Op.GTE"), rhs=g.dt())]), orderby=gen.LL([gen.O("OrderBy", exp=c, direction=gen.E("Direction.ASC")) for c in cols[:3]]))
            out.append([{"k": "call", "o": q, "m": m} for m in ("serialize", "print")])
            ors = [gen.O("Condition", lhs=c, op=gen.E("Op.EQ"), rhs=v) for c in cols[:3] for v in g.r.sample(["q", "w", "e", "r", "t"], 3)]
            g.r.shuffle(ors)
            q2 = gen.O("Query", match=gen.O("Entity", name="events"), select=gen.LL(cols[:2]), where=gen.LL([gen.O("Or", conditions=gen.LL(ors))]))
            req = gen.O("Request", dataset="events", app_id="app", query=q2, flags=gen.O("Flags", turbo=True, debug=True, consistent=True, dry_run=False), tenant_ids=gen.D([[k, 1] for k in g.r.sample(["referrer", "org", "zone", "alpha"], 3)]))
            out.append([{"k": "call", "o": q2, "m": "serialize"}, {"k": "call", "o": req, "m": "serialize"}, {"k": "call", "o": req, "m": "to_dict"}])
            j = g.query(kind="join")
            out.append([{"k": "call", "o": j, "m": "serialize"}, {"k": "call", "o": j, "m": "print"}])
        return out


# ---------------------------------------------------------------------------
# C12

ZS = {}  # the batch's zygotes, shared by its runs
HOWS = ["copy", "deepcopy", "deepcopy2", "0", "1", "2", "3", "4", "5"]


@core.kind("nodes")
def exec_nodes(sc):
    live, found, counts = {}, [], {}
    own = None
    zs = ZS.get("z")
    if zs is None or any(h not in zs.paths for h in sc["hashes"]):
        zs = own = nodes.Zygotes(sc["hashes"])
    if not zs.ok:
        return {"found": [[0, ["import-fails"]]], "outcomes": []}

    def count(k):
        counts[k] = counts.get(k, 0) + 1

    msgs = {}
    delivered = {}
    done = 0
    try:
        for i, st in enumerate(sc["steps"]):
            if st is None:
                continue
            d = st["do"]
            n = st.get("n")
            if n is not None and n not in live and d != "restart":
                live[n] = nodes.Forked(zs, sc["nodes"][n], 120.0)
            done += 1
            if d == "restart":
                if n in live:
                    live.pop(n).kill()
                    count("process-restart")
                cfg = dict(sc["nodes"][n], hash=st["hash"])
                live[n] = nodes.Forked(zs, cfg, 120.0)
                continue
            if d == "make":
                live[n].ask({"c": "make", "id": st["id"], "spec": sc["specs"][st["s"]]})
            elif d == "use":
                live[n].ask({"c": "use", "id": st["id"], "op": st["op"]})
            elif d == "dup":
                a = live[n].ask({"c": "dup", "id": st["id"], "new": st["new"], "how": st["how"], "spoil": st.get("spoil")})
                count("copy" if not st["how"].isdigit() else "pickle-in-process")
                if a:
                    found.append([i, a])
            elif d == "send":
                a = live[n].ask({"c": "dump", "id": st["id"], "how": st["how"]})
                if isinstance(a, list):
                    found.append([i, a])
                elif a:
                    msgs[st["msg"]] = a["data"]
            elif d == "deliver":
                if st["msg"] in msgs:
                    if st["msg"] in delivered:
                        count("duplicate-delivery")
                    if any(m > st["msg"] for m in delivered):
                        count("reordered-delivery")
                    delivered[st["msg"]] = 1
                    count("delivery")
                    a = live[n].ask({"c": "load", "id": st["id"], "data": msgs[st["msg"]]})
                    if a:
                        found.append([i, a])
            elif d == "check":
                a = live[n].ask({"c": "check", "id": st["id"], "spec": sc["specs"][st["s"]], "ops": st["ops"]})
                if a:
                    found.append([i] + a[:2])
                if a is not None:
                    count("object-checked")
            if found:
                break
    except nodes.NodeHang:
        return {"hang": True}
    except nodes.NodeDied as e:
        return {"died": str(e)}
    finally:
        for x in live.values():
            x.kill()
        if own:
            own.close()
    return {"found": found, "outcomes": [], "calls": done, "fault_counts": counts, "ident": [sc["nodes"], sc["steps"]], "nontrivial": True}


@core.judge_of("nodes")
def judge_nodes(sc, res, oracle):
    if not res["found"]:
        return None
    f = res["found"][0]
    st = sc["steps"][f[0]]
    s = sc["specs"][st["s"]] if "s" in st else None
    return V("copy-differs", "step %d (%s on process %s)%s: %s" % (f[0], st["do"], st.get("n"), " of " + core.short(s, 500) if s else "", core.short(f[1:])))


def parts(spec, out):
    """Every SDK object described inside a spec."""
    if isinstance(spec, dict):
        if "a" in spec:
            out.append(spec)
            for v in spec["a"].values():
                parts(v, out)
        elif isinstance(spec.get("v"), list):
            for v in spec["v"]:
                parts(v, out)
    elif isinstance(spec, list):
        for v in spec:
            parts(v, out)
    return out


def plain(x):
    """No caller-defined parts, no unordered parts."""
    if isinstance(x, dict):
        if x.get("T") in ("set", "seq"):
            return False
        if x.get("T") == "dt" and isinstance(x.get("tz"), (dict, str)):
            return False  # old pickle protocols lose the fold of a datetime
        return all(plain(v) for v in x.values())
    if isinstance(x, list):
        return all(plain(v) for v in x)
    return True


SETS = ("Query", "MetricsQuery", "Timeseries", "Formula", "Metric", "MetricsScope")


class C12(props.Lab):
    mix = ["snql", "mql"]
    runs = {"quick": 700, "thorough": 20000}
    nfam = 1
    timeout = 300.0
    objects = 14

    def prepare(self):
        """A stock of object descriptions that can be built."""
        g = gen.G("%s/%s/corpus" % (self.seed, self.prop))
        want = 1200 if self.tier == "quick" else 5000
        cands = []
        while len(cands) < want:
            x = g.r.random()
            if x < 0.35:
                s = g.query()
            elif x < 0.5:
                s = g.request(g.r.choice([g.query, g.metrics_query, g.delete])())
            elif x < 0.65:
                s = g.metrics_query()
            elif x < 0.75:
                s = g.timeseries()
            elif x < 0.85:
                s = g.formula()
            else:
                s = g.r.choice([g.delete, g.scope, g.rollup, g.metric, g.flags])()
            if g.r.random() < 0.45:
                s = copy.deepcopy(g.r.choice(parts(s, []) or [s]))
            if plain(s):
                cands.append(s)
        ok = [False] * len(cands)

        def got(i, r):
            ok[i] = r[0] == "ok"

        pool.pmap(lambda i: core.child(specs.run_op, {"k": "build", "o": cands[i]}), len(cands), got)
        self.stock = [s for s, k in zip(cands, ok) if k]
        self.ops_total, self.accepted = len(cands), len(self.stock)
        byc = {}
        for s in self.stock:
            byc.setdefault(s["T"], []).append(s)
        self.byc = byc
        self.hashes = [0, 1]
        r = self.rng("hashes")
        while len(self.hashes) < 10:
            self.hashes.append(r.randrange(2, 4294967295))
        ZS["z"] = nodes.Zygotes(self.hashes)

    def close(self):
        z = ZS.pop("z", None)
        if z:
            z.close()

    def uses(self, r, g, s):
        T = s["T"]
        out = []
        for m in {
            "Query": ["validate", "serialize", "print", "str"], "MetricsQuery": ["validate", "serialize", "print", "str"],
            "Request": ["validate", "to_dict", "serialize", "print"], "DeleteQuery": ["validate", "serialize", "print"],
            "Flags": ["validate", "to_dict"],
        }.get(T, ["validate"]) + ["hash"]:
            out.append({"k": "call", "o": {"T": "sh", "i": 0}, "m": m})
        if T in ("Column", "Function", "CurriedFunction", "Condition", "And", "Or", "OrderBy", "AliasedExpression", "Entity", "Join", "LimitBy"):
            out.append({"k": "tr", "o": {"T": "sh", "i": 0}})
            out.append({"k": "find", "o": {"T": "sh", "i": 0}, "t": "Column"})
        return [o for o in out if o["k"] not in specs.MISSING]

    def scenario(self, i):
        from . import props_values

        r = self.rng(i)
        g = gen.G("%s/%s/%s/g" % (self.seed, self.prop, i))
        nn = r.choice([2, 2, 3])
        cfgs = [{"hash": r.choice(self.hashes), "heap": r.randrange(1 << 20), "gc": r.choice([None, 0, 50])} for _ in range(nn)]
        sp, steps, flying, objs = [], [], [], []  # objs: [node, id, spec, hops]
        nid = nmsg = 0
        ctx = {"names": ["title", "user", "timestamp", "event_id"]}

        def check(o):
            s = sp[o[2]]
            ops = self.uses(r, g, s)
            r.shuffle(ops)
            ops = ops[: r.randint(2, 6)]
            if s["T"] in SETS:
                for _ in range(2):
                    f, x, _, _ = props_values.set_step(g, r, s["T"], ctx)
                    if plain(x):
                        ops.insert(r.randrange(len(ops) + 1), {"k": "set", "f": f, "x": x})
            steps.append({"do": "check", "n": o[0], "id": o[1], "s": o[2], "ops": ops})

        for _ in range(self.objects):
            T = r.choice(sorted(self.byc))
            s = r.choice(self.byc[T]) if r.random() < 0.5 else r.choice(self.stock)
            sp.append(copy.deepcopy(s))
            n = r.randrange(nn)
            steps.append({"do": "make", "n": n, "id": nid, "s": len(sp) - 1})
            objs.append([n, nid, len(sp) - 1])
            nid += 1
        for _ in range(r.randint(40, 90)):
            x = r.random()
            o = r.choice(objs) if objs else None
            if x < 0.22 and o:
                steps.append({"do": "use", "n": o[0], "id": o[1], "op": r.choice(self.uses(r, g, sp[o[2]]))})
            elif x < 0.4 and o:
                steps.append({"do": "dup", "n": o[0], "id": o[1], "new": nid, "how": r.choice(HOWS), "spoil": r.random() < 0.4})
                objs.append([o[0], nid, o[2]])
                if r.random() < 0.7:
                    check(objs[-1])
                nid += 1
            elif x < 0.62 and o:
                steps.append({"do": "send", "n": o[0], "id": o[1], "msg": nmsg, "how": r.randint(0, 5)})
                flying.append([nmsg, o[2]])
                nmsg += 1
            elif x < 0.84 and flying:
                m = r.choice(flying)
                if r.random() < 0.7:
                    flying.remove(m)  # otherwise it will be delivered again
                n = r.randrange(nn)
                steps.append({"do": "deliver", "n": n, "msg": m[0], "id": nid})
                objs.append([n, nid, m[1]])
                if r.random() < 0.8:
                    check(objs[-1])
                nid += 1
            elif x < 0.88:
                n = r.randrange(nn)
                steps.append({"do": "restart", "n": n, "hash": r.choice(self.hashes)})
                objs = [o for o in objs if o[0] != n]
            elif o:
                check(o)
        for m in flying:
            n = r.randrange(nn)
            steps.append({"do": "deliver", "n": n, "msg": m[0], "id": nid})
            check([n, nid, m[1]])
            nid += 1
        hashes = sorted({c["hash"] for c in cfgs} | {s["hash"] for s in steps if s["do"] == "restart"})
        return {"type": "nodes", "prop": self.prop, "hashes": hashes, "nodes": cfgs, "specs": sp, "steps": steps}


for _c in (C07, C12):
    props.ALL[_c.__name__] = _c
