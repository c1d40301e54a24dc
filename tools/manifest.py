"""Writes MANIFEST.json from properties.jsonl (python3 tools/manifest.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "Seeded search over histories and thread schedules (preempted between any two bytecodes) of near-identical SnQL calls; every result compared with the same call alone in a freshly forked process. Bounds: 2-4 threads, 1-3 calls each, or serial histories of some hundred calls.",
    "C02": "As C01 for MQL parsing, metrics queries and their requests, including callers that reuse one printer.",
    "C03": "Conversions of one body object repeated, interrupted and run in several threads; body compared with its first state at every line of every run and every result with the first one in a fresh process.",
    "C04": "An exception (interrupt, time-out, memory, exit, stack exhaustion, failing caller data) is raised at a seeded bytecode of a call; then the same and other calls are made and compared with a fresh process.",
    "C05": "Objects shared by all calls and threads of a run are compared with their first state at every switch, after every call and, in watch runs, at every line event.",
    "C06": "Seeded derivation trees over set methods in 1-3 threads against an executable model (a map from field to last accepted value).",
    "C07": "The corpus is run in separate real interpreters whose hash seed, zone, clocks, randomness, locale, directory, environment variables, collector and call order are drawn from the seed; compared with the base process. Bounds: inputs without unordered parts; only the kind of an error is compared.",
    "C08": "A second call is made by the same thread at a seeded bytecode inside a first one, or from a callback in the caller's data; both results compared with a fresh process.",
    "C09": "Everything mutable in results is modified by the caller, at once or later, while other calls run; all other results, objects and later calls compared with a fresh process, and identity of mutable parts checked.",
    "C10": "Threads are suspended for ever at seeded bytecodes; the others must finish with their own results, within a bound on their own steps, under hostile schedules; locks and clocks are the simulator's.",
    "C11": "Long histories of distinct calls (accepted, rejected, interrupted, from short-lived threads, repeated on one object, chains of set methods); bytes held after collection must stop growing. Bound: growth is called endless when it lasts 24 000 calls (100 000 thorough).",
    "C12": "Objects travel between real processes with different hash seeds over a simulated network (delay, duplication, reordering, restarts, all pickle protocols, copies); each arrival is compared with one built there.",
    "C13": "Seeded histories of calls and edits through public mutable parts, other threads running; each outcome compared with a newly built object of the current content in a fresh process.",
    "C14": "Calls run under an audit hook while interpreter-wide settings are compared with their first state at every traced line, thread switch and after every call, also when the call is interrupted or stalled at a seeded point; standard streams, descriptors and threads are checked after the run.",
}
PURE = "A pure function of one input: no schedule, clock, I/O, crash or second party can change it, so there is nothing for a simulator to schedule or inject; it needs input generation or proof, not this technique."

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if p["id"] in NOTE:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "python3 -m sim.check " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 -m sim.check " + p["id"], "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "deterministic simulation with fault injection (seeded schedules and faults, pristine-process reference)",
            "level": "exploration", "level_note": NOTE[p["id"]],
        })
    else:
        m["not_applicable"].append({"property": p["id"], "reason": PURE})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
