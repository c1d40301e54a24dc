"""The simulated scheduler.

Caller threads are real threads, but exactly one is ever released; it hands the
baton on only where the simulator says so: at a traced bytecode (or line) of the
code under test, at a simulated wait, at the end of its program.  Every choice
comes from the scenario (explicit schedule) or from the run's own PRNG.
"""
import dis
import gc
import random
import sys

from . import seams, specs

HARD_CAP = 3_000_000  # traced events per run

# CPython 3.12 delivers opcode events only if some frame asked for them before
# sys.settrace was called
sys._getframe().f_trace_opcodes = True

EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "SystemExit": SystemExit,
    "TimeoutError": TimeoutError,
}


class SimTimeout(BaseException):
    """What gevent.Timeout is: a BaseException thrown into the caller."""


class SimSoftLimit(Exception):
    """What celery's SoftTimeLimitExceeded is: an Exception thrown into the caller."""


EXC["SimTimeout"] = SimTimeout
EXC["SimSoftLimit"] = SimSoftLimit
INF = 1 << 60


def repo_root():
    import snuba_sdk

    return snuba_sdk.__file__.rsplit("/", 1)[0]


def traced_pred(deep):
    root = repo_root() + "/"
    import contextlib
    import dataclasses

    extra = {"<string>"}
    if deep:
        extra |= {dataclasses.__file__, contextlib.__file__}
        import parsimonious

        proot = parsimonious.__file__.rsplit("/", 1)[0] + "/"
    else:
        proot = None

    def pred(code):
        f = code.co_filename
        if code.co_name == "<module>":
            return False
        return f.startswith(root) or f in extra or (proot is not None and f.startswith(proot))

    return pred


_resume_at = {}


def unsafe(frame):
    """CPython 3.12 crashes if a trace function raises before a generator's frame
    has become one; no real exception can be delivered there either."""
    code = frame.f_code
    if not code.co_flags & 0x2A0:
        return False
    at = _resume_at.get(code)
    if at is None:
        at = 0
        for ins in dis.get_instructions(code):
            if ins.opname == "RESUME":
                at = ins.offset
                break
        _resume_at[code] = at
    return frame.f_lasti <= at


class Thread:
    __slots__ = (
        "tid", "ops", "sem", "state", "outcomes", "opi", "ev", "faults", "wait",
        "deadline", "evs", "last_seg_ev", "ident", "hotf",
    )

    def __init__(self, tid, ops):
        self.tid = tid
        self.ops = ops
        self.sem = seams.real_allocate_lock()
        self.sem.acquire()
        self.state = "ready"  # ready, blocked, stalled, done
        self.outcomes = []
        self.opi = -1
        self.ev = 0
        self.faults = []
        self.hotf = []  # faults waiting for a hot place
        self.wait = None
        self.deadline = None
        self.evs = []
        self.ident = None


class Sim:
    """One simulated run.  scenario keys:
    seed, gran ('opcode'|'line'|'none'), deep, threads (list of op lists),
    shared (specs), schedule (explicit segments or None), strategy, faults,
    check_switch (snapshot shared objects at every switch), gc (threshold)
    """

    def __init__(self, sc, runner=None):
        self.sc = sc
        self.rng = random.Random(sc["seed"])
        self.want = sc.get("gran", "opcode")
        self.pred = traced_pred(sc.get("deep", False))
        self.codeok = {}
        self.threads = [Thread(i, ops) for i, ops in enumerate(sc["threads"])]
        self.cur = None
        self.left = INF
        self.chunk = INF
        self.seg_left = INF
        self.total = 0
        self.skew = 0.0
        self.segments = []
        self.explicit = sc.get("schedule")
        if self.explicit is not None:
            self.explicit = [list(x) for x in self.explicit]
        self.main = seams.real_allocate_lock()
        self.main.acquire()
        self.fired = []
        self.switch_locs = []
        self.verdict = None
        self.problems = []
        self.shared = []
        self.base = None
        self.runner = runner or self._run_op
        self.cap = sc.get("cap", HARD_CAP)
        self.nested = []
        self.nest_depth = 0
        self.plan = None
        self.until_op = False
        self.looks = 0
        self.hot = {}
        for f, q, line in sc.get("hot", []):
            self.hot.setdefault((f, q), set()).add(line)
        st = sc.get("strategy") or {}
        self.hot_p = st["p"] if st.get("s") == "hot" and self.explicit is None else 0.0

    # -- clock ---------------------------------------------------------
    def now(self):
        return seams.EPOCH + (self.total + self.chunk - self.left if self.chunk < INF else self.total) * 1e-6 + self.skew

    # -- identity ------------------------------------------------------
    def in_sim_thread(self):
        return self.cur is not None and self.cur.ident == seams.real_get_ident()

    # -- schedule ------------------------------------------------------
    def runnable(self):
        out = []
        for t in self.threads:
            if t.state == "ready":
                out.append(t)
            elif t.state == "blocked":
                if (t.wait is not None and t.wait()) or (
                    t.deadline is not None and self.now() >= t.deadline
                ):
                    out.append(t)
        return out

    def pick(self):
        """Choose the next thread and its segment length, or None."""
        r = self.runnable()
        if not r:
            # discrete-event clock: jump to the next deadline, if there is one
            ds = [t.deadline for t in self.threads if t.state == "blocked" and t.deadline is not None]
            if not ds:
                return None
            jump = min(ds) - self.now()
            if jump > 0:
                self.skew += jump
            r = self.runnable()
            if not r:
                return None
        if self.explicit is not None:
            while self.explicit:
                tid, n = self.explicit[0]
                t = self.threads[tid] if tid < len(self.threads) else None
                if t is None or t not in r:
                    self.explicit.pop(0)
                    continue
                self.explicit.pop(0)
                self.until_op = n == -2
                return t, (INF if n < 0 else max(1, n))
            self.until_op = False
            return r[0], INF
        return self.strategy(r)

    def strategy(self, r):
        st = self.sc.get("strategy") or {"s": "geo", "mean": 50}
        s = st["s"]
        rng = self.rng
        if s == "geo":
            t = r[rng.randrange(len(r))]
            n = 1 + int(rng.expovariate(1.0 / st["mean"]))
            return t, n
        if s == "pct":
            # run the first runnable thread of a random priority order; at each
            # of a few planned points (in the running thread's own events) demote it
            if self.plan is None:
                prio = list(range(len(self.threads)))
                rng.shuffle(prio)
                cuts = sorted(rng.randrange(1, max(2, st["span"])) for _ in range(st["cuts"]))
                self.plan = [prio, cuts]
            prio, cuts = self.plan
            r.sort(key=lambda t: prio.index(t.tid))
            t = r[0]
            while cuts and cuts[0] <= self.total:
                cuts.pop(0)
            n = cuts[0] - self.total if cuts else INF
            if cuts:
                prio.remove(t.tid)
                prio.append(t.tid)
            return t, n
        if s == "opb":
            return r[rng.randrange(len(r))], INF
        if s == "hot":  # switch at the places where lasting state changes
            others = [t for t in r if t is not self.cur]
            if others and rng.random() < 0.9:
                r = others
            n = INF if rng.random() < 0.9 else 1 + int(rng.expovariate(0.01))
            return r[rng.randrange(len(r))], n
        if s == "fixed":  # preempt thread 0 at one event, run the others, resume
            if self.plan is None:
                self.plan = 1
                z = [t for t in r if t.tid == 0]
                if z:
                    return z[0], st["at"]
            others = [t for t in r if t.tid != 0]
            if others:
                return others[0], INF
            return r[0], INF
        raise AssertionError(s)

    def account(self):
        """Fold the events consumed since the last arm into the counters."""
        used = self.chunk - self.left
        self.chunk = self.left
        if used:
            self.cur.ev += used
            self.total += used
            if self.seg_left < INF:
                self.seg_left -= used
            self.segments[-1][1] += used
        return used

    def arm(self):
        t = self.cur
        n = self.seg_left
        if t.faults:
            n = min(n, max(1, t.faults[0]["at"] - t.ev))
        n = max(1, min(n, self.cap - self.total))
        self.chunk = self.left = n

    def give(self, nxt, n):
        self.cur = nxt
        self.seg_left = n
        self.segments.append([nxt.tid, 0, 0])
        if nxt.state == "blocked":
            nxt.state = "ready"
        self.arm()
        nxt.sem.release()

    def finish(self, verdict):
        if self.verdict is None:
            self.verdict = verdict
        self.main.release()

    def park_forever(self):
        l = seams.real_allocate_lock()
        l.acquire()
        l.acquire()

    def yield_from(self, me, ended):
        """me gives up the baton.  ended: it did not merely run out of segment."""
        if ended and self.segments:
            self.segments[-1][2] = 1
        self.check_switch()
        p = self.pick()
        if p is None:
            if all(t.state in ("done", "stalled") for t in self.threads):
                self.finish("done")
            else:
                self.finish("deadlock")
            if me.state != "done":
                self.park_forever()
            return
        nxt, n = p
        if nxt is me:
            self.cur = me
            self.seg_left = n
            self.segments.append([me.tid, 0, 0])
            if me.state == "blocked":
                me.state = "ready"
            self.arm()
            return
        self.give(nxt, n)
        if me.state != "done":
            me.sem.acquire()

    def check_switch(self):
        if self.sc.get("check_switch") and self.base is not None and not self.problems:
            s = specs.snapshot(self.shared)
            if s != self.base:
                self.problems.append(["changed-during-call", diff(self.base, s)])

    # -- trace callbacks -----------------------------------------------
    def make_trace(self):
        codeok = self.codeok
        pred = self.pred
        want = self.want
        sim = self
        opc = want == "opcode"

        def ltrace(frame, event, arg):
            if event == want:
                sim.left -= 1
                if sim.left <= 0:
                    sim.slow(frame)
            return ltrace

        if self.sc.get("watch"):
            plain = ltrace

            def ltrace(frame, event, arg):
                # an observer that looks at the shared objects at every step
                if event == want:
                    if sim.live != sim.saved:
                        sim.look(frame)
                    sim.looks += 1
                    sim.left -= 1
                    if sim.left <= 0:
                        sim.slow(frame)
                return ltrace

        def hot_trace(lines):
            base = ltrace

            def htrace(frame, event, arg):
                if event == want and frame.f_lineno in lines:
                    sim.hot_event()
                base(frame, event, arg)
                return htrace

            return htrace

        def classify(code):
            if not pred(code):
                return False
            f = code.co_filename
            i = f.rfind("snuba_sdk/")
            lines = sim.hot.get((f[i:] if i >= 0 else f, code.co_qualname)) if sim.hot else None
            return hot_trace(lines) if lines else ltrace

        def gtrace(frame, event, arg):
            code = frame.f_code
            ok = codeok.get(code)
            if ok is None:
                ok = codeok[code] = classify(code)
            if not ok:
                return None
            if opc:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return ok

        return gtrace

    def arm_watch(self):
        self.live = specs.containers(self.shared)
        self.saved = [x.copy() for x in self.live]

    def look(self, frame):
        if not self.problems:
            s = specs.snapshot(self.shared)
            if s != self.base:
                self.problems.append(
                    ["changed-during-call", "%s:%s" % (frame.f_code.co_name, frame.f_lineno), diff(self.base, s)]
                )
        self.arm_watch()  # private parts only, or already reported

    def hot_event(self):
        t = self.cur
        for f in t.hotf:
            if self.rng.random() < f["hotp"]:
                t.hotf.remove(f)
                self.account()
                t.faults.append(dict(f, at=t.ev + f.get("delay", 0)))
                t.faults.sort(key=lambda f: f["at"])
                self.arm()
                break
        if self.hot_p and self.rng.random() < self.hot_p:
            self.account()
            self.seg_left = 1
            self.arm()

    def slow(self, frame):
        t = self.cur
        self.account()
        if self.total >= self.cap:
            self.finish("cap")
            self.park_forever()
        raise_exc = None
        while t.faults and t.ev >= t.faults[0]["at"]:
            if t.faults[0]["kind"] == "exc" and unsafe(frame):
                t.faults[0]["at"] = t.ev + 1  # one event later
                break
            f = t.faults.pop(0)
            where = "%s:%s" % (frame.f_code.co_name, frame.f_lineno)
            self.fired.append([f["kind"], f.get("exc", ""), where, t.tid, t.opi, t.ev, f.get("hotid")])
            if f["kind"] == "exc":
                raise_exc = EXC[f["exc"]]("injected")
                break
            if f["kind"] == "stall":
                t.state = "stalled"
                self.yield_from(t, True)
                self.park_forever()
            if f["kind"] == "nest":
                self.nest(f)
            if f["kind"] == "clock":
                self.skew += f["by"]
        if raise_exc is None and self.seg_left <= 0:
            if len(self.switch_locs) < 200:
                self.switch_locs.append("%s:%s" % (frame.f_code.co_name, frame.f_lineno))
            self.yield_from(t, False)
        else:
            self.arm()
        if raise_exc is not None:
            # raising from a trace function ends tracing in this thread, and CPython
            # 3.12 crashes on a frame that still asks for opcode events then
            f = frame
            while f is not None:
                f.f_trace_opcodes = False
                f = f.f_back
            raise raise_exc

    def nest(self, f):
        if self.nest_depth > 2:
            return
        self.nest_depth += 1
        # simulated waits inside the nested call use the normal scheduler
        try:
            for i, op in enumerate(f["ops"]):
                self.nested.append([f["id"], i, specs.run_op(op, self.shared)])
        finally:
            self.nest_depth -= 1

    # -- waits ---------------------------------------------------------
    def block(self, cond, deadline):
        """Wait until cond() or the deadline; True if cond holds."""
        t = self.cur
        self.account()
        t.state = "blocked"
        t.wait = cond
        t.deadline = deadline
        self.yield_from(t, True)
        t.wait = None
        t.deadline = None
        return cond is None or bool(cond())

    # -- thread bodies -------------------------------------------------
    def _run_op(self, op, t):
        """Default runner: execute traced, canonicalise untraced."""
        tr = self.trace if self.want != "none" else None
        try:
            if tr is not None:
                sys.settrace(tr)
            try:
                r = specs.execute(op, self.shared)
            finally:
                if tr is not None:
                    sys.settrace(None)
            return ["ok", specs.canon(r)]
        except BaseException as e:
            sys.settrace(None)
            return specs.err(e)

    def body(self, t):
        t.ident = seams.real_get_ident()
        t.sem.acquire()
        try:
            for i, op in enumerate(t.ops):
                self.account()
                t.opi = i
                t.ev = 0
                mine = [dict(f, hotid=k) for k, f in enumerate(self.sc.get("faults", [])) if f["thread"] == t.tid and f["op"] == i]
                t.faults = sorted((f for f in mine if "at" in f), key=lambda f: f["at"])
                t.hotf = [f for f in mine if "at" not in f]
                self.arm()
                out = self.runner(op, t)
                self.account()
                t.evs.append(t.ev)
                t.outcomes.append(out)
                t.faults = []
                t.hotf = []
                self.after_op(op, t, out)
                y = self.until_op if self.explicit is not None else self.sc.get("op_yield")
                if y and i + 1 < len(t.ops):
                    # op boundary is always a legal switch point
                    self.segments[-1][2] = 2
                    self.yield_from(t, False)
                else:
                    self.arm()
        except BaseException as e:  # harness failure
            import traceback

            self.problems.append(["harness", traceback.format_exc()])
        t.state = "done"
        self.account()
        self.yield_from(t, True)

    def after_op(self, op, t, out):
        if self.sc.get("check_ops") and self.base is not None and not self.problems:
            s = specs.snapshot(self.shared)
            if s != self.base:
                self.problems.append(["changed-by-call", t.tid, t.opi, diff(self.base, s)])

    def run(self):
        g = self.sc.get("gc")
        if g == 0:
            gc.disable()
        elif g:
            gc.set_threshold(g)
        for s in self.sc.get("shared", []):
            self.shared.append(specs.build(s))
        self.base = specs.snapshot(self.shared)
        if self.sc.get("watch"):
            self.arm_watch()
        self.trace = self.make_trace()
        seams.SIM = self
        specs.CALLBACK = self.callback
        for t in self.threads:
            seams.real_start_thread(self.body, (t,))
        # wait until every thread has reached its semaphore is unnecessary: the
        # baton is a lock released once, whether or not the thread waits on it yet
        p = self.pick()
        if p is None:
            self.verdict = "done"
        else:
            self.give(*p)
            self.main.acquire()
        seams.SIM = None
        end = specs.snapshot(self.shared)
        if end != self.base and not self.problems:
            self.problems.append(["changed-at-end", diff(self.base, end)])
        return {
            "verdict": self.verdict,
            "outcomes": [t.outcomes for t in self.threads],
            "states": [t.state for t in self.threads],
            "opi": [t.opi for t in self.threads],
            "evs": [t.evs for t in self.threads],
            "nested": self.nested,
            "problems": self.problems,
            "fired": self.fired,
            "total": self.total,
            "simtime": self.total * 1e-6 + self.skew,
            "switches": max(0, len(self.segments) - 1),
            "locs": self.switch_locs,
            "looks": self.looks,
            "segments": [[a, -1 if e == 1 else -2 if e == 2 else b] for a, b, e in self.segments if b or e],
        }

    def callback(self, k):
        cbs = self.sc.get("callbacks") or {}
        ops = cbs.get(str(k))
        if not ops or self.nest_depth > 2:
            return
        tr = sys.gettrace()
        self.fired.append(["callback", str(k), "", self.cur.tid, self.cur.opi])
        self.nest_depth += 1
        try:
            for i, op in enumerate(ops):
                self.nested.append(["cb%s" % k, i, specs.run_op(op, self.shared)])
        finally:
            self.nest_depth -= 1


def diff(a, b):
    """First place two canonical values differ, shortly."""
    path = []

    def go(x, y):
        if type(x) is type(y) and isinstance(x, list):
            if len(x) == len(y):
                for i, (p, q) in enumerate(zip(x, y)):
                    if p != q:
                        path.append(i)
                        return go(p, q)
                return None
        return [str(x), str(y)]

    d = go(a, b)
    return {"at": path, "was/now": d}


def count_events(op):
    """Outcome of op alone in this (pristine) process, with its number of
    events at each granularity: [before the call proper, in total]."""
    near, deep = traced_pred(False), traced_pred(True)
    codeok = {}
    n = {"line": 0, "opcode": 0, "line+": 0, "opcode+": 0}
    mark = {}
    spots = {}
    rnd = random.Random(1)
    lts = {}

    def make(isnear, above, again):
        def lt(frame, event, arg):
            if event == "opcode" or event == "line":
                if isnear:
                    n[event] += 1
                n[event + "+"] += 1
                if event == "opcode":
                    site = (guard(frame) if isnear else None) or above
                    key = (frame.f_code, site, again)
                    sp = spots.get(key)
                    if sp is None:
                        sp = spots[key] = [int(isnear), site, [], 0, again]
                    sp[3] += 1
                    if len(sp[2]) < 8:
                        sp[2].append([n["line"], n["opcode"], n["line+"], n["opcode+"]])
                    elif rnd.random() < 8 / sp[3]:
                        sp[2][rnd.randrange(8)] = [n["line"], n["opcode"], n["line+"], n["opcode+"]]
            return lt

        return lt

    def gt(frame, event, arg):
        code = frame.f_code
        ok = codeok.get(code)
        if ok is None:
            ok = codeok[code] = 2 if near(code) else 1 if deep(code) else 0
        if not ok:
            return None
        frame.f_trace_opcodes = True
        k = (ok == 2, guards(frame.f_back), nested(frame))
        if k not in lts:
            lts[k] = make(*k)
        return lts[k]

    specs.MARK = lambda o: mark.update(n)
    try:
        sys.settrace(gt)
        try:
            r = specs.execute(op)
        finally:
            sys.settrace(None)
        out = ["ok", specs.canon(r)]
    except BaseException as e:
        sys.settrace(None)
        out = specs.err(e)
    specs.MARK = None
    ev = {k: [mark.get(k, 0), n[k]] for k in n}
    # a few places in every function that ran, so that faults can be spread over
    # the code and not only over the steps
    ev["spots"] = [sp[:3] + sp[4:] for sp in spots.values()]
    return {"out": out, "ev": ev}


GUARDS = {}


def guard(frame):
    """The try or with block of this SDK frame that is being executed, if any."""
    code = frame.f_code
    ent = GUARDS.get(code)
    if ent is None:
        ent = []
        if "snuba_sdk" in code.co_filename and code.co_exceptiontable:
            ops = {i.offset: i.opname for i in dis.get_instructions(code)}
            for e in dis._parse_exception_table(code):
                if ops.get(e.target) == "PUSH_EXC_INFO":
                    ent.append((e.start, e.end, "%s:%s" % (code.co_name, e.target)))
        GUARDS[code] = ent
    for a, b, name in ent:
        if a <= frame.f_lasti < b:
            return name
    return None


def nested(frame):
    """Which SDK functions are on the stack more than once, if any."""
    seen, twice = set(), set()
    f = frame
    for _ in range(80):
        if f is None:
            break
        c = f.f_code
        if "snuba_sdk" in c.co_filename:
            if c in seen:
                twice.add(c.co_qualname)
            seen.add(c)
        f = f.f_back
    return " ".join(sorted(twice))


def guards(frame):
    """The nearest block with a handler that the frames up from here are in."""
    for _ in range(12):
        if frame is None:
            return None
        g = guard(frame)
        if g:
            return g
        frame = frame.f_back
    return None
