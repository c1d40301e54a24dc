"""Forked runs: every simulated run happens in a child forked from a process that
has imported the SDK and never called it, so each run starts from the pristine
post-import state and is a function of its scenario alone."""
import gc
import json
import mmap
import os
import select
import signal
import struct
import sys
import traceback

from . import seams

WORKERS = int(os.environ.get("VERIF_WORKERS") or min(8, os.cpu_count() or 1))
RUN_TIMEOUT = 60.0


def _write_all(fd, b):
    while b:
        n = os.write(fd, b[:1 << 16])
        b = b[n:]


def forked(fn, *args, timeout=RUN_TIMEOUT):
    """Run fn(*args) in a forked child; return its JSON result,
    {"hang":true} on wall timeout or {"crash":...} if the child died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            sys.unraisablehook = lambda a: None
            try:
                out = fn(*args)
            except BaseException:
                out = {"crash": traceback.format_exc()}
            _write_all(w, json.dumps(out).encode())
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    deadline = seams.real_monotonic() + timeout
    hang = False
    while True:
        left = deadline - seams.real_monotonic()
        if left <= 0:
            hang = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            hang = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if hang:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hang:
        return {"hang": True}
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        if os.WIFSIGNALED(status):
            return {"died": os.WTERMSIG(status)}
        return {"crash": "child ended with status %d and no result" % status}


def pmap(fn, n, on_result=None, stop=None, workers=None, wall=None):
    """Call fn(i) for i in range(n) over forked workers, each keeping this
    process's pristine state; yields via on_result(i, result) in arbitrary
    order.  A result with key "violation" stops all higher indices, so that the
    lowest violating index is always found.  Returns the number completed."""
    workers = workers or WORKERS
    workers = max(1, min(workers, n))
    mm = mmap.mmap(-1, 8)
    mm[:8] = struct.pack("q", n)
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    sys.stderr.flush()
    kids = {}
    deadline = seams.real_monotonic() + wall if wall else None
    for wk in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for rr in list(kids):
                    os.close(rr)
                for i in range(wk, n, workers):
                    if i >= struct.unpack("q", mm[:8])[0]:
                        break
                    if deadline is not None and seams.real_monotonic() > deadline:
                        break
                    try:
                        res = fn(i)
                    except BaseException:
                        res = {"crash": traceback.format_exc()}
                    if isinstance(res, dict) and res.get("violation"):
                        cur = struct.unpack("q", mm[:8])[0]
                        if i < cur:
                            mm[:8] = struct.pack("q", i)
                    b = json.dumps([i, res]).encode()
                    _write_all(w, struct.pack("q", len(b)) + b)
            finally:
                os._exit(0)
        os.close(w)
        kids[r] = [pid, b""]
    done = 0
    while kids:
        rl, _, _ = select.select(list(kids), [], [])
        for r in rl:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                os.waitpid(kids[r][0], 0)
                del kids[r]
                continue
            k = kids[r]
            k[1] += b
            while len(k[1]) >= 8:
                ln = struct.unpack("q", k[1][:8])[0]
                if len(k[1]) < 8 + ln:
                    break
                i, res = json.loads(k[1][8 : 8 + ln])
                k[1] = k[1][8 + ln :]
                done += 1
                if on_result:
                    on_result(i, res)
    return done
