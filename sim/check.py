"""python -m sim.check C01 [--runs N] : decide one property by simulation."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO") or "/repo"


def reexec():
    """Fix what a process inherits before anything else: hash seed, no byte
    code written next to the sources, no address randomisation if allowed."""
    if os.environ.get("VERIF_SIM_CHILD") == "1":
        return
    env = dict(os.environ)
    env["VERIF_SIM_CHILD"] = "1"
    seed = int(env.get("VERIF_SEED", "1") or 1)
    env["PYTHONHASHSEED"] = env.get("VERIF_HASHSEED") or str(seed % 4294967295)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent/verif-pycache"
    env["PYTHONPATH"] = VERIF + ":" + REPO
    env["TZ"] = "UTC"
    try:
        import ctypes

        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execve(py, [py, "-m", "sim." + os.environ.get("VERIF_MOD", "check")] + sys.argv[1:], env)


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs = int(args[args.index("--runs") + 1]) if "--runs" in args else None
    from . import seams

    t0 = seams.real_monotonic()
    seams.install()
    import snuba_sdk

    if not os.path.abspath(snuba_sdk.__file__).startswith(REPO + "/"):
        print("harness error: snuba_sdk imported from", snuba_sdk.__file__)
        return 2
    from . import core, driver

    try:
        return driver.check(prop, seed, tier, runs, t0, VERIF)
    except core.HarnessError as e:
        print("harness error (not a verdict):\n%s" % e)
        return 2


if __name__ == "__main__":
    reexec()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
