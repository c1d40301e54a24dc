"""Seams the simulator owns, installed before the code under test is imported.

Locks and clocks: whatever synchronisation or timing the code under test uses
(or comes to use) is created through these factories, so the simulated
scheduler - never the operating system - decides who gets a lock, how long a
wait lasts and what time it is.  Outside a simulated run they behave like
uncontended primitives on a clock that advances one microsecond per reading.
"""
import _thread
import threading
import time

real_allocate_lock = _thread.allocate_lock
real_start_thread = _thread.start_new_thread
real_get_ident = _thread.get_ident
real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep

SIM = None  # the running simulation, if any
EPOCH = 1_600_000_000.0
_idle_ticks = 0
_saved = {}


class SimDeadlock(BaseException):
    """A wait that nothing in the process can ever end."""


def now():
    global _idle_ticks
    if SIM is not None:
        return SIM.now()
    _idle_ticks += 1
    return EPOCH + _idle_ticks * 1e-6


class SimLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = real_get_ident()
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = now() + timeout
        while True:
            if self._owner is None:
                self._owner = me
                self._count = 1
                return True
            if self._reentrant and self._owner == me:
                self._count += 1
                return True
            if not blocking:
                return False
            if SIM is None or not SIM.in_sim_thread():
                if deadline is not None:
                    return False
                raise SimDeadlock("wait for a lock that nothing can release")
            if not SIM.block(lambda: self._owner is None, deadline):
                return False

    def release(self):
        if self._owner is None or (self._reentrant and self._owner != real_get_ident()):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner == real_get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


def sim_sleep(secs):
    global _idle_ticks
    if SIM is not None and SIM.in_sim_thread():
        SIM.block(None, SIM.now() + max(0.0, secs))
    else:
        _idle_ticks += int(secs * 1e6) + 1


def install():
    _saved.update(RLock=threading.RLock, _CRLock=getattr(threading, "_CRLock", None))
    _thread.allocate_lock = SimLock
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    if hasattr(threading, "_CRLock"):
        threading._CRLock = SimRLock
    time.time = now
    time.monotonic = now
    time.perf_counter = now
    time.process_time = now
    time.thread_time = now
    time.time_ns = lambda: int(now() * 1e9)
    time.monotonic_ns = lambda: int(now() * 1e9)
    time.perf_counter_ns = lambda: int(now() * 1e9)
    time.sleep = sim_sleep


def uninstall():
    """Real threads and locks again (in a child that will not simulate them)."""
    _thread.allocate_lock = real_allocate_lock
    threading.Lock = real_allocate_lock
    threading._allocate_lock = real_allocate_lock
    if "RLock" in _saved:
        threading.RLock, threading._CRLock = _saved["RLock"], _saved["_CRLock"]
