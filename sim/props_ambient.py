"""C14: SDK calls only compute; nothing outside them is touched."""
import asyncio
import atexit
import builtins
import copy
import copyreg
import dataclasses
import datetime
import decimal
import faulthandler
import functools
import gc
import io
import json
import locale
import logging
import os
import random
import re
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import warnings

from . import core, engine, gen, props, seams, specs
from .core import V

# what is not an effect: looking at objects, compiling, loading a module
IGNORED = {
    "import", "compile", "exec", "marshal.loads", "marshal.load", "sys._getframe", "sys._getframemodulename",
    "object.__getattr__", "object.__setattr__", "object.__delattr__", "code.__new__", "function.__new__", "builtins.id",
    "sys.settrace", "sys._current_frames", "sys.unraisablehook", "gc.get_objects", "gc.get_referents", "gc.get_referrers",
    "pickle.find_class", "array.__new__", "cpython.run_startup", "sys.excepthook",
}
SIGS = [s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGPIPE, signal.SIGHUP) if s]
MODULES = [json, datetime, re, dataclasses, decimal, functools, builtins, random, locale, copy, logging]


class Tee(io.StringIO):
    pass


def quick():
    """Interpreter-wide settings that are cheap to read."""
    f = warnings.filters
    return (
        sys.getrecursionlimit(), gc.isenabled(), gc.get_threshold(), gc.get_debug(), sys.getswitchinterval(), len(f), f[:3], decimal.getcontext().prec, decimal.getcontext().rounding,
        sys.get_int_max_str_digits(), len(os.environ._data), sys.stdout, sys.stderr, sys.stdin, sys.excepthook, sys.unraisablehook, sys.displayhook,
        sys.getprofile(), sys.dont_write_bytecode, len(gc.callbacks), len(sys.meta_path), threading.excepthook, logging.root.level, logging.root.manager.disable, warnings.showwarning,
        datetime.datetime, json.dumps, json.dumps.__code__, builtins.print,
    )


QNAMES = (
    "recursion limit, gc enabled, gc thresholds, gc debug flags, switch interval, number of warning filters, warning filters, decimal precision, decimal rounding, int digit limit, "
    "number of environment variables, sys.stdout, sys.stderr, sys.stdin, sys.excepthook, sys.unraisablehook, sys.displayhook, profile function, dont_write_bytecode, "
    "gc callbacks, import hooks, threading.excepthook, root log level, logging disabled, warnings.showwarning, datetime class, json.dumps, json.dumps code, print"
).split(", ")


def full():
    """The same, and what is dearer to read."""
    q = quick()
    on = gc.isenabled()
    gc.disable()  # the collector may be set to run at every allocation
    try:
        return dearer({n: str(v) for n, v in zip(QNAMES, q)})
    finally:
        if on:
            gc.enable()


def dearer(out):
    out["environment"] = sorted((repr(k), repr(v)) for k, v in os.environ._data.items())
    out["locale"] = [locale.setlocale(c) for c in (locale.LC_CTYPE, locale.LC_COLLATE, locale.LC_NUMERIC, locale.LC_TIME, locale.LC_MONETARY)]
    out["time zone"] = [str(time.tzname), str(time.timezone), str(time.daylight)]
    out["random state"] = str(hash(random.getstate()))
    out["decimal context"] = str(decimal.getcontext())
    out["warning filters"] = [str(x) for x in warnings.filters]
    out["working directory"] = os.getcwd()
    out["signal handlers"] = [str(signal.getsignal(s)) for s in SIGS]
    out["timers"] = str([x != 0 for s in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF) for x in signal.getitimer(s)])
    out["sys.path"] = list(sys.path)
    out["atexit callbacks"] = atexit._ncallbacks()
    m = os.umask(0o77)
    os.umask(m)
    out["umask"] = m
    out["resource limits"] = str([resource.getrlimit(x) for x in (resource.RLIMIT_STACK, resource.RLIMIT_NOFILE, resource.RLIMIT_AS)])
    out["registered picklers"] = str(len(copyreg.dispatch_table))
    out["tracing of memory"] = str([faulthandler.is_enabled(), tracemalloc.is_tracing()])
    out["default socket timeout"] = str(socket.getdefaulttimeout())
    out["thread stack size"] = str(threading.stack_size())
    out["async hooks"] = str([sys.get_asyncgen_hooks(), sys.get_coroutine_origin_tracking_depth()])
    out["priority"] = str(os.getpriority(os.PRIO_PROCESS, 0))
    out["log handlers"] = [str(logging.root.handlers), str(logging.root.filters)]
    out["event loop policy"] = str(getattr(asyncio.events, "_event_loop_policy", None))
    out["trace function of new threads"] = str(threading.gettrace() if hasattr(threading, "gettrace") else None)
    for m in MODULES:
        out["module " + m.__name__] = {k: v for k, v in vars(m).items() if not k.startswith("__") and callable(v)}
    out["class json.JSONEncoder"] = {k: v for k, v in vars(json.JSONEncoder).items() if callable(v)}
    return out


class AmbientSim(engine.Sim):
    """Watches the process while callers' threads run: settings at every step,
    and every audited interpreter event raised from inside a call."""

    def __init__(self, sc):
        super().__init__(sc, runner=self.watched)
        self.seen = []
        self.inside = set()
        self.quiet = set()
        self.effects = []
        self.q0 = None

    def hook(self, event, args):
        if event in IGNORED or not self.inside:
            return
        me = seams.real_get_ident()
        if me not in self.inside or me in self.quiet:
            return
        f = sys._getframe(1)
        while f is not None:  # loading a module reads files
            if f.f_code.co_filename.startswith("<frozen importlib"):
                return
            f = f.f_back
        if len(self.effects) < 5:
            self.effects.append([self.cur.tid, self.cur.opi, event, core.short(repr(args), 200)])

    def report(self, when, frame=None):
        me = seams.real_get_ident()
        self.quiet.add(me)
        try:
            now = full()
        finally:
            self.quiet.discard(me)
        for k in now:
            if now[k] != self.f0[k] and len(self.seen) < 5:
                a, b = self.f0[k], now[k]
                if isinstance(a, dict):
                    d = sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x))
                    a, b = "", d[:4]
                where = "%s:%s" % (frame.f_code.co_name, frame.f_lineno) if frame is not None else ""
                self.seen.append([when, self.cur.tid if self.cur else 0, self.cur.opi if self.cur else 0, where, k, core.short(a, 150), core.short(b, 150)])

    def make_trace(self):
        g = super().make_trace()
        if not self.sc.get("each"):
            return g
        sim = self
        q0 = self.q0

        def wrap(l):
            def lt(frame, event, arg):
                if quick() != q0 and not sim.seen:
                    sim.report("during", frame)
                l2 = l(frame, event, arg)
                return lt if l2 is l else l2 and wrap(l2)

            return lt

        made = {}

        def gt(frame, event, arg):
            l = g(frame, event, arg)
            if l is None:
                return None
            if l not in made:
                made[l] = wrap(l)
            return made[l]

        return gt

    def yield_from(self, me, ended):
        if not self.seen:
            self.report("while another thread runs" if me.state == "ready" else "at a switch")
        super().yield_from(me, ended)

    def watched(self, op, t):
        me = seams.real_get_ident()
        self.inside.add(me)
        try:
            try:
                sys.settrace(self.trace)
                try:
                    specs.execute(op, self.shared)
                finally:
                    sys.settrace(None)
                return ["ok"]
            except BaseException as e:
                sys.settrace(None)
                return ["err", type(e).__name__]
        finally:
            self.inside.discard(me)
            if not self.seen:
                self.report("after")

    def run(self):
        # everything fixed before the calls, nothing of it by the calls
        asyncio.events.get_event_loop_policy()
        self.out, self.errs = Tee(), Tee()
        sys.stdout, sys.stderr = self.out, self.errs
        g = self.sc.get("gc")
        if g == 0:
            gc.disable()
        elif g:
            gc.set_threshold(g)
        self.q0 = quick()
        self.f0 = full()
        fds0 = fds()
        nth = len(sys._current_frames())
        frozen = gc.get_freeze_count()
        sys.addaudithook(self.hook)
        res = super().run()
        if gc.get_freeze_count() > frozen + 5000 and not self.seen:
            self.seen.append(["after", 0, 0, "", "frozen objects", frozen, gc.get_freeze_count()])
        res["effects"] = self.effects
        res["seen"] = self.seen
        res["printed"] = [core.short(self.out.getvalue(), 200), core.short(self.errs.getvalue(), 200)]
        res["fds"] = sorted(fds() - fds0)
        alive = sum(1 for t in self.threads if t.state not in ("done",))
        res["extra_threads"] = len([f for f in sys._current_frames().values() if f.f_code.co_filename.find("/sim/") < 0 and not inside_sim(f)])
        return res


def inside_sim(f):
    while f is not None:
        if "/sim/" in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


def fds():
    out = set()
    for n in os.listdir("/proc/self/fd"):
        try:
            out.add((int(n), os.readlink("/proc/self/fd/" + n)))
        except OSError:
            pass
    return out


@core.kind("ambient")
def exec_ambient(sc):
    if sc.get("env"):
        for k, v in sc["env"].items():
            os.environ[k] = v
    return AmbientSim(sc).run()


@core.judge_of("ambient")
def judge_ambient(sc, res, oracle):
    for p in res["problems"]:
        if p[0] == "harness":
            raise core.HarnessError(p[1])
    op = lambda t, i: core.short(core.describe(specs.subst(sc["threads"][t][i], sc.get("shared", []))), 700) if 0 <= i < len(sc["threads"][t]) else ""
    if res["effects"]:
        t, i, ev, args = res["effects"][0]
        return V("effect", "thread %d, call %d does more than compute: %s %s, in %s" % (t, i, ev, args, op(t, i)))
    if res["seen"]:
        when, t, i, where, k, a, b = res["seen"][0]
        return V("setting-changed", "%s: %s is %s, was %s (%s, thread %d, call %d %s)" % (when, k, b, a, where, t, i, op(t, i)))
    if any(res["printed"]):
        return V("printed", "a call wrote to standard output or error: %s" % core.short(res["printed"]))
    if res["fds"]:
        return V("descriptor", "files left open: %s" % core.short(res["fds"]))
    if res["extra_threads"]:
        return V("thread", "%d threads left running" % res["extra_threads"])
    return None


class C14(props.Lab):
    mix = ["snql", "mql", "legacy"]
    runs = {"quick": 1500, "thorough": 50000}
    faults = True

    def scenario(self, i):
        r = self.rng(i)
        sc = self.base(r, i)
        sc["type"] = "ambient"
        n = r.choice([1, 1, 2, 3])
        k = r.choice([1, 2, 3])
        ops = props.C05.pick_ops(self, r, n * k) if r.random() < 0.5 else self.pick_ops(r, n * k)
        sc["threads"] = [ops[t * k : (t + 1) * k] for t in range(n)]
        sc["shared"] = self.share(r, sc["threads"], 1) if r.random() < 0.4 else []
        gk = self.gran(r, sc)
        sc["faults"] = []
        if r.random() < 0.6:
            sc["gran"], sc["deep"], gk = "line", False, "line"
            sc["each"] = True
        if r.random() < 0.5:
            t = r.randrange(n)
            o = r.randrange(len(sc["threads"][t]))
            sc["faults"].append({"kind": r.choice(["exc", "exc", "exc", "stall"]), "exc": r.choice(props.EXCS), "thread": t, "op": o, **self.when(r, sc, sc["threads"][t][o], gk)})
        self.strategy(r, sc, gk)
        return sc


props.ALL["C14"] = C14
