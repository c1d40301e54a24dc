"""python3 -m sim.replay FILE : run a replay file again in a fresh process."""
import json
import os
import sys

from . import check


def main():
    path = [a for a in sys.argv[1:] if not a.startswith("-")][0]
    rec = json.load(open(path))
    if os.environ.get("VERIF_SIM_CHILD") != "1":
        os.environ["VERIF_HASHSEED"] = str(rec["hashseed"])
        os.environ["VERIF_MOD"] = "replay"
        check.reexec()
    from . import seams

    seams.install()
    from . import core, driver, pool, props  # noqa: F401

    lab = props.ALL[rec["property"]](rec["property"], rec["seed"], "quick")
    sc = rec["scenario"]
    try:
        res = core.run(sc, timeout=getattr(lab, "timeout", pool.RUN_TIMEOUT))
        v = core.judge(sc, res, lab.oracle)
    except core.Hang as e:
        v = core.V("no-progress", str(e))
    if v is None:
        print("no violation")
        return 0
    print("violated: %s: %s" % (v["cls"], v["what"]))
    print("same as recorded" if v == rec["violation"] else "recorded was: %s: %s" % (rec["violation"]["cls"], rec["violation"]["what"]))
    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
