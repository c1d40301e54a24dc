"""Runs one property's batch, reports, minimises, writes evidence."""
import hashlib
import json
import os

from . import core, minimise, pool, props, props_ambient, props_mem, props_procs, props_values, seams, specs

REAL = "snuba_sdk (all modules, unmodified, from the working tree), parsimonious, dataclasses, contextlib, CPython threads"
STUB = "thread scheduling, locks/conditions/events, clocks and sleeps, exceptions delivered to callers: simulator"


class Stats:
    def __init__(self):
        self.n = 0
        self.events = 0
        self.simtime = 0.0
        self.switches = 0
        self.fired = {}
        self.locs = set()
        self.fault_locs = set()
        self.hashes = set()
        self.types = {}
        self.nontrivial = 0
        self.calls = 0
        self.compared = 0
        self.looks = 0
        self.samples = []

    def add(self, s):
        self.n += 1
        self.events += s.get("total", 0)
        self.simtime += s.get("simtime", 0.0)
        self.switches += s.get("switches", 0)
        self.looks += s.get("looks", 0)
        self.calls += s.get("calls", 0)
        for k, v in s.get("fired", {}).items():
            self.fired[k] = self.fired.get(k, 0) + v
        self.locs.update(s.get("locs", []))
        self.fault_locs.update(s.get("flocs", []))
        self.types[s["type"]] = self.types.get(s["type"], 0) + 1
        if s.get("nontrivial"):
            self.hashes.add(s["hash"])
        if len(self.samples) < 3 and s.get("sample"):
            self.samples.append(s["sample"])


def summarise(sc, res, want_sample):
    fired = {}
    for f in res.get("fired", []):
        k = f[0] + (":" + f[1] if f[0] == "exc" else "")
        fired[k] = fired.get(k, 0) + 1
    for k, v in (res.get("fault_counts") or {}).items():
        fired[k] = fired.get(k, 0) + v
    calls = res.get("calls")
    if calls is None:
        o = res.get("outcomes", [])
        calls = sum(len(x) if isinstance(x, list) else 1 for x in o)
    nt = res.get("nontrivial")
    if nt is None:
        nt = bool(res.get("switches", 0) > 0 or fired or calls > 1)
    ident = [sc.get("threads"), sc.get("ops"), sc.get("steps"), res.get("segments"), sc.get("faults"), res.get("ident")]
    out = {
        "type": sc["type"], "total": res.get("total", 0), "simtime": res.get("simtime", 0.0),
        "switches": res.get("switches", 0), "fired": fired, "locs": sorted(set(res.get("locs", [])))[:200],
        "flocs": sorted({f[2] for f in res.get("fired", []) if len(f) > 2 and f[2]}), "calls": calls, "nontrivial": nt,
        "looks": res.get("looks", 0),
        "hash": hashlib.sha256(json.dumps(ident, sort_keys=True).encode()).hexdigest()[:16],
    }
    if want_sample:
        out["sample"] = {"scenario": core.short(sc, 1500), "segments": core.short(res.get("segments", []), 200), "fired": res.get("fired", [])[:5]}
    return out


def one_run(lab, i):
    sc = lab.scenario(i)
    to = getattr(lab, "timeout", pool.RUN_TIMEOUT)
    res = core.run(sc, timeout=to)
    if res.get("hang"):
        res = core.run(sc, timeout=2 * to)
    if "died" in res:  # the interpreter itself crashed: no verdict from this run
        return {"type": "interpreter-crash", "nontrivial": False}
    v = core.judge(sc, res, lab.oracle)
    s = summarise(sc, res, i < 40) if not res.get("hang") else {"type": sc["type"]}
    if v:
        s["violation"] = v
    return s


def report(lab, sc, viol, verif, seed, index):
    path = os.path.join(verif, "replays", "%s-seed%s-run%s.json" % (lab.prop, seed, index))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(
            {"property": lab.prop, "seed": seed, "run": index, "hashseed": os.environ.get("PYTHONHASHSEED"), "violation": viol, "scenario": sc},
            f, indent=1, ensure_ascii=False,
        )
    print("violated: %s: %s" % (viol["cls"], viol["what"]))
    print("replay with: python3 -m sim.replay %s" % path)
    print("VIOLATION property=%s replay=%s" % (lab.prop, path))
    return path


def check(prop, seed, tier, runs, t0, verif):
    lab = props.ALL[prop](prop, seed, tier)
    n = runs or lab.runs[tier]
    wall = {"quick": 240.0, "thorough": 3 * 3600.0}[tier]
    print("property %s seed %d tier %s: %d simulated runs planned" % (prop, seed, tier, n), flush=True)
    st = Stats()
    viols = {}
    crashes = []
    try:
        lab.prepare()
    except core.Hang as e:
        v = core.V("no-progress", "a single call never returns: %s" % e)
        report(lab, {"type": "none"}, v, verif, seed, "alone")
        write_evidence(lab, st, seed, tier, t0, 1, verif, n)
        return 1
    t1 = seams.real_monotonic()
    if lab.hot:
        print("lasting state changes at %d places (%s)" % (len(lab.hot), ", ".join(lab.hotnames)[:200]))

    def on(i, r):
        if "crash" in r:
            crashes.append((i, r["crash"]))
            return
        if r.get("violation"):
            viols[i] = r["violation"]
        st.add(r)

    pool.pmap(lambda i: one_run(lab, i), n, on, wall=wall)
    t2 = seams.real_monotonic()
    rc = 0
    if viols:
        i = min(viols)
        sc, v = lab.scenario(i), viols[i]
        try:
            sc, v = minimise.Shrinker(lab, sc, v).run()
        except core.HarnessError as e:
            print("minimiser: %s" % e)
        report(lab, sc, v, verif, seed, i)
        rc = 1
    elif crashes:
        crashes.sort()
        print("harness error in run %d (not a verdict):\n%s" % crashes[0])
        rc = 2
    if not rc and st.types.get("interpreter-crash", 0) > 0.02 * st.n + 2:
        print("harness error: the interpreter crashed in %d of %d runs" % (st.types["interpreter-crash"], st.n))
        rc = 2
    if rc != 2:
        write_evidence(lab, st, seed, tier, t0, len(viols), verif, n, t2 - t1)
    getattr(lab, "close", lambda: None)()
    print("%s: %d runs, %d calls, %d switches, %d faults fired, %d violating, %.1f s" % (prop, st.n, st.calls, st.switches, sum(st.fired.values()), len(viols), seams.real_monotonic() - t0))
    return rc


def write_evidence(lab, st, seed, tier, t0, nviol, verif, planned, batch=0.0):
    wall = seams.real_monotonic() - t0
    cov = {
        "evaluations": st.n,
        "distinct_nontrivial": len(st.hashes),
        "rule": lab.rule if hasattr(lab, "rule") else RULE,
        "samples": st.samples,
        "planned_runs": planned,
        "runs_per_hour": int(st.n / batch * 3600) if batch else 0,
        "run_types": st.types,
        "sdk_calls_judged": st.calls,
        "simulated_events": st.events,
        "simulated_seconds": round(st.simtime, 6),
        "thread_switches": st.switches,
        "distinct_preemption_points": len(st.locs),
        "distinct_fault_points": len(st.fault_locs),
        "places_where_lasting_state_changes": len(lab.hot),
        "faults_fired": st.fired,
        "object_observations": st.looks,
        "corpus_operations": getattr(lab, "ops_total", 0),
        "corpus_accepted": getattr(lab, "accepted", 0),
        "operations_left_out": specs.MISSING,
        "real_components": REAL,
        "stub_components": STUB,
    }
    cov.update(getattr(lab, "extra_coverage", dict)())
    ev = {
        "property": lab.prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["one CPython 3.12 process with the GIL; preemption only between bytecodes", "a call's result in a freshly forked process that has imported the SDK and called nothing defines its correct result"],
        "wall_s": round(wall, 3), "violations": nviol,
    }
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", lab.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


RULE = (
    "A case is one simulated run: operations drawn from families of near-identical calls, assigned to caller threads, "
    "with schedule and faults from the run's own PRNG (seed/property/index). Distinct: different operations, faults or "
    "recorded switch sequence. Non-trivial: at least one preemption, one fault that fired, or more than one call."
)
