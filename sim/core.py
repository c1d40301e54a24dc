"""Scenarios, the pristine-process oracle, and the judge.

A scenario is self-contained JSON.  `execute(sc)` runs it in a forked child and
returns the recorded history; `judge(sc, res, oracle)` decides it.  Nothing but
the scenario and the code under test enters either.
"""
import datetime
import gc
import hashlib
import json
import random

from . import engine, gen, pool, specs, vary

for _f in ("%Y-%m-%dT%H:%M:%S", "%Y-%m-%dT%H:%M:%S.%f"):  # stdlib regex caches only
    datetime.datetime.strptime(
        "2021-01-01T00:00:00" + (".5" if "f" in _f else ""), _f
    )


class HarnessError(Exception):
    pass


class Hang(Exception):
    pass


def child(fn, *args, timeout=pool.RUN_TIMEOUT):
    r = pool.forked(fn, *args, timeout=timeout)
    if isinstance(r, dict) and "crash" in r:
        raise HarnessError(r["crash"])
    return r


class Oracle:
    """What an operation does when it is the only one ever made in a process."""

    def __init__(self):
        self.known = {}
        self.events = {}
        self.calls = 0

    def load(self, ops, infos):
        for op, i in zip(ops, infos):
            k = gen.key(op)
            self.known[k] = i["out"]
            self.events[k] = i["ev"]

    def __call__(self, op):
        k = gen.key(op)
        v = self.known.get(k)
        if v is None:
            self.calls += 1
            v = child(specs.run_op, op)
            if isinstance(v, dict) and "died" in v:
                raise HarnessError("interpreter crash in a single call: " + k[:500])
            if isinstance(v, dict):
                raise Hang("alone in a fresh process: " + k[:500])
            self.known[k] = v
        return v

    def ev(self, op):
        k = gen.key(op)
        v = self.events.get(k)
        if v is None:
            self.calls += 1
            i = child(engine.count_events, op)
            if "hang" in i:
                raise Hang("alone in a fresh process: " + k[:500])
            self.known.setdefault(k, i["out"])
            v = self.events[k] = i["ev"]
        return v


EXEC = {}
JUDGE = {}


def kind(name):
    def deco(fn):
        EXEC[name] = fn
        return fn

    return deco


def judge_of(name):
    def deco(fn):
        JUDGE[name] = fn
        return fn

    return deco


def perturb(sc):
    """Seeded differences in heap layout and collector state, so that nothing
    that depends on addresses or collection times goes unvaried."""
    k = sc.get("heap", 0)
    keep = []
    if k:
        r = random.Random(k)
        keep = [bytes(r.randrange(16, 500)) for _ in range(r.randrange(0, 400))]
        for _ in range(r.randrange(0, 200)):
            if keep:
                keep.pop(r.randrange(len(keep)))
    return keep


def execute(sc):
    keep = perturb(sc)
    res = EXEC[sc["type"]](sc)
    del keep
    return res


def run(sc, timeout=pool.RUN_TIMEOUT):
    return child(execute, sc, timeout=timeout)


def judge(sc, res, oracle):
    if res.get("hang"):
        return V("no-progress", "the run made no progress for %ds of real time" % pool.RUN_TIMEOUT)
    return JUDGE[sc["type"]](sc, res, oracle)


def V(cls, what, **kw):
    return dict(kw, cls=cls, what=what)


def short(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=False)
    return s if len(s) <= n else s[: n - 3] + "..."


def compare(op, got, want):
    if got[0] == want[0] == "ok":
        d = engine.diff(want, got)
        if d["was/now"] and len(json.dumps(got)) > 600:
            return "%s\n  differs at %s: gave %s\n  but alone in a fresh process gives %s" % (
                short(describe(op), 900), d["at"], aligned(d["was/now"][1], d["was/now"][0]), aligned(d["was/now"][0], d["was/now"][1]))
    return "%s\n  gave %s\n  but alone in a fresh process gives %s" % (short(describe(op), 900), short(got), short(want))


def aligned(a, b):
    """The part of text a around its first difference from b."""
    i = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return repr(("..." if i > 80 else "") + a[max(0, i - 80) : i + 160])


def describe(op):
    return json.dumps(op, ensure_ascii=False)


# ---------------------------------------------------------------------------
# thread/history/fault runs


@kind("sim")
def exec_sim(sc):
    return engine.Sim(sc).run()


@kind("soak")
def exec_soak(sc):
    """One thread, many calls, untraced: only the history varies."""
    shared = [specs.build(s) for s in sc.get("shared", [])]
    base = specs.snapshot(shared)
    g = sc.get("gc")
    if g == 0:
        gc.disable()
    elif g:
        gc.set_threshold(g)
    out = []
    n = 0
    for op in sc["ops"]:
        if "flood" in op:  # many distinct calls, only their effect on others counts
            keep = set(vary.atoms(op["flood"]))
            for _ in range(op["n"]):
                n += 1
                try:
                    specs.execute(vary.fresh(op["flood"], keep, n))
                except Exception:
                    pass
            out.append(["flood"])
            continue
        out.append(specs.run_op(op, shared))
    prob = []
    end = specs.snapshot(shared)
    if end != base:
        prob.append(["changed-at-end", engine.diff(base, end)])
    return {"outcomes": [_h(o) for o in out], "problems": prob, "calls": len(out) + n}


def _h(o):
    s = json.dumps(o)
    return s if len(s) < 200 else "#" + hashlib.sha256(s.encode()).hexdigest()[:24]


@judge_of("soak")
def judge_soak(sc, res, oracle):
    for i, (op, h) in enumerate(zip(sc["ops"], res["outcomes"])):
        if "flood" in op or (sc.get("last") and i + 1 < len(sc["ops"])):
            continue
        want = oracle(specs.subst(op, sc.get("shared", [])))
        if h != _h(want):
            return V("result-differs", "call %d of %d: %s" % (i, len(sc["ops"]), compare(op, [h], want)), op=i)
    if res["problems"] and sc.get("objects"):
        return V("object-changed", short(res["problems"]))
    return None


def census_ops(sc):
    """Variants of the given operations, interleaved, in one seeded order."""
    ops = []
    for b in sc["bases"]:
        keep = set(b["keep"])
        ops += [vary.fresh(b["op"], keep, n + 1, True) for n in range(b["n"])]
    random.Random(sc["order"]).shuffle(ops)
    return ops


@kind("census")
def exec_census(sc):
    """Many distinct calls of the same shape in one process, in one order and, in
    another process, in the reverse order: no call may depend on which came first."""

    def go(back):
        ops = census_ops(sc)
        if back:
            ops.reverse()
        out = [_h(specs.run_op(o)) for o in ops]
        if back:
            out.reverse()
        return out

    other = child(go, True)
    if isinstance(other, dict):
        return other
    a, b = go(False), other
    bad = [i for i in range(len(a)) if a[i] != b[i]]
    r = random.Random(sc["order"])
    some = sorted(r.sample(range(len(a)), min(6, len(a))))
    return {"bad": [[i, a[i], b[i]] for i in bad[:4] + some], "nbad": len(bad), "calls": 2 * len(a), "ident": sc["bases"]}


@judge_of("census")
def judge_census(sc, res, oracle):
    ops = None
    for i, a, b in res["bad"]:
        if ops is None:
            ops = census_ops(sc)
        want = oracle(ops[i])
        for h, back in ((a, False), (b, True)):
            if h != _h(want):
                return V("result-differs", "call %d of %d distinct ones%s: %s" % (i, len(ops), " in reverse order" if back else "", compare(ops[i], [h], want)), op=i, back=back)
    return None


@judge_of("sim")
def judge_sim(sc, res, oracle):
    sh = sc.get("shared", [])
    # the standard library prints an object inside its own repr as "...", so
    # under nesting only the kind of a rejection is compared
    loose = sc.get("errkind")
    for p in res["problems"]:
        if p[0] == "harness":
            raise HarnessError(p[1])
    if res["verdict"] == "deadlock":
        return V("deadlock", "threads wait for ever: states %s at operations %s" % (res["states"], res["opi"]))
    if res["verdict"] == "cap":
        return V("no-progress", "not finished after %d events; states %s at operations %s" % (res["total"], res["states"], res["opi"]))
    hit = {(f[3], f[4]) for f in res["fired"] if f[0] == "exc"}
    hit |= {tuple(x) for x in sc.get("may_fail", [])}
    for t, ops in enumerate(sc["threads"]):
        outs = res["outcomes"][t]
        if len(outs) < len(ops) and res["states"][t] != "stalled":
            return V("no-progress", "thread %d ended early" % t)
        for i, got in enumerate(outs):
            op = ops[i]
            want = oracle(specs.subst(op, sh))
            if got == want or (loose and got[:2] == want[:2] and got[0] == "err"):
                continue
            if (t, i) in hit and got[0] == "err":
                continue
            c = "partial-result" if (t, i) in hit else "result-differs"
            return V(c, "thread %d, call %d: %s" % (t, i, compare(specs.subst(op, sh), got, want)), thread=t, op=i)
    nest = {}
    for f in sc.get("faults", []):
        if f["kind"] == "nest":
            nest[f["id"]] = f["ops"]
    for k, v in (sc.get("callbacks") or {}).items():
        nest["cb" + k] = v
    for nid, i, got in res["nested"]:
        op = nest[nid][i]
        want = oracle(specs.subst(op, sh))
        if got != want and not (loose and got[:2] == want[:2] and got[0] == "err"):
            return V("nested-result-differs", "nested call: %s" % compare(specs.subst(op, sh), got, want))
    if sc.get("objects"):
        for p in res["problems"]:
            return V("object-changed", "%s: %s" % (p[0], short(p[1:])))
    b = sc.get("bound")
    if b:
        for t, ops in enumerate(sc["threads"]):
            for i, n in enumerate(res["evs"][t]):
                solo = oracle.ev(specs.subst(ops[i], sh))[sc["gran"] + ("+" if sc.get("deep") else "")][1]
                if n > b["mul"] * solo + b["add"]:
                    return V("too-many-steps", "thread %d, call %d took %d steps of its own, %d alone: %s" % (t, i, n, solo, short(describe(ops[i]))))
    return None
