"""Shrinks a violating scenario: fewer threads, operations, faults, switches and
smaller objects, while the same class of violation persists."""
import copy
import json

from . import core, seams

BUDGET_RUNS = 500


class Shrinker:
    def __init__(self, lab, sc, viol, wall=45.0):
        self.lab, self.sc, self.viol = lab, sc, viol
        self.deadline = seams.real_monotonic() + wall
        self.tries = 0

    def check(self, sc, timeout=20.0):
        if self.tries >= BUDGET_RUNS or seams.real_monotonic() > self.deadline:
            return None, None
        self.tries += 1
        try:
            res = core.run(sc, timeout=timeout)
            if "died" in res:
                return None, None
            v = core.judge(sc, res, self.lab.oracle)
        except (core.HarnessError, core.Hang, KeyError, IndexError):
            return None, None
        if v and v["cls"] == self.viol["cls"]:
            return v, res
        return None, None

    def take(self, sc):
        v, res = self.check(sc)
        if v:
            self.sc, self.viol, self.res = sc, v, res
            return True
        return False

    def run(self):
        sc = self.sc
        if self.viol["cls"] == "no-progress" and sc.get("type") == "sim":
            return self.sc, self.viol
        f = getattr(self, "shrink_" + sc["type"], None)
        if f:
            f()
        return self.sc, self.viol

    # -- generic list reduction ------------------------------------------
    def ddlist(self, get, put):
        """Remove chunks, then single items, from a list inside the scenario."""
        n = len(get(self.sc))
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while i < len(get(self.sc)):
                lst = get(self.sc)
                cand = put(self.sc, lst[:i] + lst[i + size :])
                if cand is None or not self.take(cand):
                    i += size
                if self.tries >= BUDGET_RUNS or seams.real_monotonic() > self.deadline:
                    return
            size //= 2

    def simple(self, key):
        def put(sc, v):
            if not v:
                return None
            return dict(copy.deepcopy(sc), **{key: v})

        self.ddlist(lambda sc: sc[key], put)

    # -- specs -------------------------------------------------------------
    def spec_edits(self, x, path=()):
        """(path, edit) pairs that make a JSON spec smaller, big cuts first."""
        out = []
        if isinstance(x, dict):
            if "a" in x and isinstance(x["a"], dict):
                for k in x["a"]:
                    out.append((path + ("a",), k))
                for k in x["a"]:
                    out += self.spec_edits(x["a"][k], path + ("a", k))
            elif "v" in x and isinstance(x["v"], list) and x.get("T") not in ("dt", "date"):
                for i in range(len(x["v"])):
                    out.append((path + ("v",), i))
                for i, v in enumerate(x["v"]):
                    out += self.spec_edits(v, path + ("v", i))
            elif "T" not in x:
                for k in x:
                    if k in ("o", "y", "x"):
                        out += self.spec_edits(x[k], path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                out += self.spec_edits(v, path + (i,))
        return out

    def shrink_specs(self, roots):
        """roots(sc) -> list of paths to specs/ops inside the scenario."""
        changed = True
        while changed and self.tries < BUDGET_RUNS and seams.real_monotonic() < self.deadline:
            changed = False
            for rp in roots(self.sc):
                edits = self.spec_edits(at(self.sc, rp))
                for path, k in sorted(edits, key=lambda e: (len(e[0]), str(e))):
                    sc = copy.deepcopy(self.sc)
                    try:
                        c = at(sc, rp + path)
                        before = json.dumps(at(sc, rp))
                        del c[k]
                        after = json.dumps(at(sc, rp))
                    except (KeyError, IndexError, TypeError):
                        continue
                    # the same operation elsewhere (retry, other thread) shrinks with it
                    sc = json.loads(json.dumps(sc).replace(before, after))
                    if self.take(sc):
                        changed = True
                        break
                if changed:
                    break

    # -- per scenario type ---------------------------------------------------
    def shrink_soak(self):
        self.simple("ops")
        self.shrink_specs(lambda sc: [("ops", i) for i in range(len(sc["ops"]))] + [("shared", i) for i in range(len(sc.get("shared", [])))])

    def shrink_census(self):
        ops = core.census_ops(self.sc)
        i = self.viol["op"]
        ops = ops[i:][::-1] if self.viol["back"] else ops[: i + 1]
        sc = {k: v for k, v in self.sc.items() if k not in ("bases", "order")}
        sc.update(type="soak", last=True, shared=[], ops=ops)
        if not self.take(sc):
            return
        self.ddlist(lambda sc: sc["ops"][:-1], lambda sc, v: dict(copy.deepcopy(sc), ops=v + [sc["ops"][-1]]))
        self.shrink_specs(lambda sc: [("ops", i) for i in range(len(sc["ops"]))])

    def shrink_stack(self):
        self.simple("steps")
        self.shrink_specs(lambda sc: [("shared", i) for i in range(len(sc.get("shared", [])))])

    def shrink_leak(self):
        for t in self.sc["tmpl"]:
            sc = dict(copy.deepcopy(self.sc), tmpl=[t])
            v, _ = self.check(sc, 300.0)
            if v:
                self.sc, self.viol = sc, v
                return

    def shrink_env(self):
        i = self.viol.get("op")
        if i is not None:
            if not self.take(dict(self.sc, ops=[self.sc["ops"][i]])):
                self.take(dict(self.sc, ops=self.sc["ops"][: i + 1]))
                self.simple("ops")
        for k in list(self.sc["cfg"]["env"]):
            sc = copy.deepcopy(self.sc)
            del sc["cfg"]["env"][k]
            self.take(sc)
        for k, v in (("cwd", "/"), ("gc", None), ("heap", 0), ("locale", None), ("answer", None), ("shim", None), ("hash", 1)):
            sc = copy.deepcopy(self.sc)
            sc["cfg"][k] = v
            self.take(sc)
        self.shrink_specs(lambda sc: [("ops", i) for i in range(len(sc["ops"]))])

    def shrink_nodes(self):
        self.simple("steps")
        self.shrink_specs(lambda sc: [("specs", i) for i in range(len(sc["specs"]))])
        for i, st in enumerate(self.sc["steps"]):
            for o in reversed(range(len(st.get("ops", [])))):
                sc = copy.deepcopy(self.sc)
                del sc["steps"][i]["ops"][o]
                self.take(sc)

    def drop_threads(self, *par):
        for t in reversed(range(1 if self.sc["type"] == "edit" else 0, len(self.sc["threads"]))):
            if len(self.sc["threads"]) > 1:
                sc = copy.deepcopy(self.sc)
                for k in ("threads",) + par:
                    del sc[k][t]
                self.take(sc)

    def shrink_deriv(self):
        self.drop_threads()
        for t in range(len(self.sc["threads"])):
            for o in reversed(range(len(self.sc["threads"][t]))):
                sc = copy.deepcopy(self.sc)
                sc["threads"][t][o] = None
                self.take(sc)
        self.shrink_specs(lambda sc: [("shared", i) for i in range(len(sc["shared"]))])
        self.explicit()

    def shrink_spoil(self):
        self.drop_threads("spoil")
        for t in range(len(self.sc["threads"])):
            for o in reversed(range(len(self.sc["threads"][t]))):
                sc = copy.deepcopy(self.sc)
                del sc["threads"][t][o]
                del sc["spoil"][t][o : o + 1]
                self.take(sc)
        self.shrink_specs(
            lambda sc: [("threads", t, o) for t in range(len(sc["threads"])) for o in range(len(sc["threads"][t]))]
            + [("shared", i) for i in range(len(sc.get("shared", [])))]
        )
        self.explicit()

    def shrink_edit(self):
        self.drop_threads()
        for t in range(len(self.sc["threads"])):
            for o in reversed(range(len(self.sc["threads"][t]))):
                sc = copy.deepcopy(self.sc)
                del sc["threads"][t][o]
                self.take(sc)
        self.explicit()

    def explicit(self):
        """Make the schedule explicit, then remove switches."""
        v, res = self.check(self.sc)
        if not v or "segments" not in res:
            return
        sc = dict(copy.deepcopy(self.sc), schedule=res["segments"])
        sc.pop("strategy", None)
        fs = []
        for k, f in enumerate(sc.get("faults", [])):
            if "at" not in f:  # planned for a hot place: now at the event where it fired
                at = [x[5] for x in res.get("fired", []) if len(x) > 6 and x[6] == k]
                if not at:
                    continue
                f = dict({a: b for a, b in f.items() if a not in ("hotp", "delay")}, at=at[0])
            fs.append(f)
        if "faults" in sc:
            sc["faults"] = fs
        sc.pop("hot", None)
        if self.take(sc):
            self.ddlist(lambda s: s["schedule"], lambda s, val: dict(copy.deepcopy(s), schedule=val))

    def shrink_ambient(self):
        self.shrink_sim()

    def shrink_sim(self):
        v, res = self.check(self.sc)
        if not v:
            return
        self.res = res
        # threads
        for t in reversed(range(len(self.sc["threads"]))):
            if len(self.sc["threads"]) > 1:
                sc = copy.deepcopy(self.sc)
                del sc["threads"][t]
                sc["faults"] = [dict(f, thread=f["thread"] - (f["thread"] > t)) for f in sc.get("faults", []) if f["thread"] != t]
                self.take(sc)
        # operations
        for t in range(len(self.sc["threads"])):
            for o in reversed(range(len(self.sc["threads"][t]))):
                if len(self.sc["threads"][t]) > 1:
                    sc = copy.deepcopy(self.sc)
                    del sc["threads"][t][o]
                    sc["faults"] = [dict(f, op=f["op"] - (f["thread"] == t and f["op"] > o)) for f in sc.get("faults", []) if (f["thread"], f["op"]) != (t, o)]
                    self.take(sc)
        for i in reversed(range(len(self.sc.get("faults", [])))):
            sc = copy.deepcopy(self.sc)
            del sc["faults"][i]
            self.take(sc)
        self.shrink_specs(
            lambda sc: [("threads", t, o) for t in range(len(sc["threads"])) for o in range(len(sc["threads"][t]))]
            + [("shared", i) for i in range(len(sc.get("shared", [])))]
        )
        self.explicit()
        if self.sc.get("heap"):
            self.take(dict(copy.deepcopy(self.sc), heap=0))
        if self.sc.get("gc") is not None:
            self.take(dict(copy.deepcopy(self.sc), gc=None))


def at(x, path):
    for k in path:
        x = x[k]
    return x
