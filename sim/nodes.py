"""Starting and driving node processes (sim/node.py)."""
import hashlib
import json
import os
import select
import shutil
import signal
import socket
import subprocess
import sys
import tempfile

from . import seams

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO") or "/repo"
_shim = None


def shim():
    """The compiled shim, built once per version of its source; None if it
    cannot be built (clocks and randomness are then left as they are)."""
    global _shim
    if _shim is not None:
        return _shim or None
    src = os.path.join(HERE, "shim.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(VERIF, ".build")
    out = os.path.join(d, "shim-%s.so" % h)
    try:
        if not os.path.exists(out):
            os.makedirs(d, exist_ok=True)
            tmp = out + ".%d" % os.getpid()
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src], check=True, capture_output=True)
            os.rename(tmp, out)
        _shim = out
    except Exception:
        _shim = ""
    return _shim or None


class NodeHang(Exception):
    pass


class NodeDied(Exception):
    pass


class Node:
    def __init__(self, cfg, timeout=60.0):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": VERIF + ":" + REPO, "PYTHONDONTWRITEBYTECODE": "1"}
        env["PYTHONHASHSEED"] = str(cfg.get("hash", 0))
        env.update(cfg.get("env") or {})
        s = shim()
        if s and cfg.get("shim"):
            env["LD_PRELOAD"] = s
            for k, v in cfg["shim"].items():
                env[k] = str(v)
        self.timeout = timeout
        self.dir = None
        cwd = cfg.get("cwd") or "/"
        if cwd in ("fresh", "gone"):
            self.dir = tempfile.mkdtemp(prefix="verif-node-")
            cwd = self.dir
        self.p = subprocess.Popen(
            [sys.executable, "-P"] + cfg.get("flags", []) + ["-m", "sim.node"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd, env=env, bufsize=0,
        )
        if cfg.get("cwd") == "gone":
            os.rmdir(self.dir)
            self.dir = None
        self.buf = b""
        self.p.stdin.write(json.dumps(cfg).encode() + b"\n")
        self.hello = self.read()

    def read(self):
        end = seams.real_monotonic() + self.timeout
        while b"\n" not in self.buf:
            left = end - seams.real_monotonic()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                self.kill()
                raise NodeHang()
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b:
                self.kill()
                raise NodeDied(self.p.returncode)
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def ask(self, q):
        b = json.dumps(q).encode() + b"\n"
        try:
            while b:
                n = os.write(self.p.stdin.fileno(), b[: 1 << 16])
                b = b[n:]
        except BrokenPipeError:
            self.kill()
            raise NodeDied(self.p.returncode)
        return self.read()

    def kill(self):
        if self.p.poll() is None:
            self.p.send_signal(signal.SIGKILL)
        # no waits with timeouts: the clocks here are the simulator's
        try:
            os.waitpid(self.p.pid, 0)
        except ChildProcessError:
            pass
        self.p.returncode = self.p.returncode if self.p.returncode is not None else -9
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None


class Zygotes:
    """One importing process per hash seed; nodes are forked from them."""

    def __init__(self, hashes):
        self.dir = tempfile.mkdtemp(prefix="verif-zygotes-")
        self.paths, self.procs = {}, []
        for h in hashes:
            p = os.path.join(self.dir, str(h))
            env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": VERIF + ":" + REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(h), "TZ": "UTC"}
            z = subprocess.Popen([sys.executable, "-P", "-m", "sim.node", p], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd="/", env=env, bufsize=0)
            self.procs.append(z)
            self.paths[h] = p
        self.ok = True
        for z in self.procs:
            if os.read(z.stdout.fileno(), 6) != b"ready\n":
                self.ok = False

    def close(self):
        for z in self.procs:
            z.stdin.close()
            try:
                os.waitpid(z.pid, 0)
            except ChildProcessError:
                pass
            z.returncode = 0
            z.stdout.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Forked(Node):
    """A node forked from a zygote."""

    def __init__(self, zs, cfg, timeout=60.0):
        self.timeout = timeout
        self.s = socket.socket(socket.AF_UNIX)
        self.s.connect(zs.paths[cfg["hash"]])
        self.buf = b""
        self.send(cfg)
        self.hello = self.read()

    def send(self, q):
        b = json.dumps(q).encode() + b"\n"
        try:
            self.s.sendall(b)
        except (BrokenPipeError, ConnectionError):
            self.kill()
            raise NodeDied("lost")

    def read(self):
        end = seams.real_monotonic() + self.timeout
        while b"\n" not in self.buf:
            left = end - seams.real_monotonic()
            if left <= 0 or not select.select([self.s], [], [], left)[0]:
                self.kill()
                raise NodeHang()
            try:
                b = self.s.recv(1 << 16)
            except ConnectionError:
                b = b""
            if not b:
                self.kill()
                raise NodeDied("lost")
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def ask(self, q):
        self.send(q)
        return self.read()

    def kill(self):
        self.s.close()
