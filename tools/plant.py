"""Development tool for planted bugs; no check uses it.

  plant.py make SPEC.py...   write seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS, DEMO)
  plant.py confirm [ID...]   in a scratch copy: applies, builds, tests pass, demo 0 before / non-zero after
  plant.py hunt [-p C01,C05] [ID...]  run the property's check (or the given ones) against a patched copy
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


class Copy:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="plant-")
        self.r = os.path.join(self.d, "repo")
        sh(["git", "clone", "-q", "/repo", self.r])
        return self.r

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def env(repo, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    e.update(PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.update(kw)
    return e


def make(path):
    sp = runpy.run_path(path)
    with Copy() as r:
        for f, old, new in sp["EDITS"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                print("%s: %d matches in %s of %r" % (sp["ID"], t.count(old), f, old[:70]))
                return None
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh(["git", "diff"], cwd=r)
    d = os.path.join(S, sp["ID"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(sp["DEMO"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# exit 0: the property holds here; non-zero: broken\nhere=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 %s "$here/demo.py"\n' % PY
    )
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": sp["PROP"], "needs": sp["NEEDS"], "what_it_breaks": sp["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return sp["ID"]


def confirm(i):
    d = os.path.join(S, i)
    with Copy() as r:
        rc0, o0 = sh(["bash", os.path.join(d, "demo.sh")], cwd=r, env=env(r))
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=r)
        if rc:
            return print(i, "PATCH DOES NOT APPLY", o[:300])
        rct, ot = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-W", "ignore::DeprecationWarning", "tests"], cwd=r, env=env(r))
        rc1, o1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=r, env=env(r))
    ok = rc0 == 0 and rct == 0 and rc1 != 0
    print("%-28s %s demo-clean=%d tests=%d demo-bug=%d" % (i, "ok " if ok else "BAD", rc0, rct, rc1), flush=True)
    if not ok:
        print(o0[-500:] if rc0 else "", ot[-1500:] if rct else "", o1[-500:])
    return ok


def hunt(i, which):
    d = os.path.join(S, i)
    props = which or [json.load(open(os.path.join(d, "meta.json")))["property"]]
    with Copy() as r:
        sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=r)
        for p in props:
            t = time.time()
            e = env(r, VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            rc, o = sh(["python3", "-m", "sim.check", p], cwd=V, env=e)
            why = [l for l in o.splitlines() if l.startswith("violated")] or o.splitlines()[-1:]
            n = [l for l in o.splitlines() if "violating" in l]
            print("%-28s %s rc=%d %3.0fs %s | %s" % (i, p, rc, time.time() - t, n[0].split(", ")[-2] if n else "", why[0][:230] if why else ""), flush=True)


if __name__ == "__main__":
    a = sys.argv[2:]
    which = None
    if "-p" in a:
        k = a.index("-p")
        which = a[k + 1].split(",")
        del a[k:k + 2]
    if sys.argv[1] == "make":
        for x in a:
            i = make(x)
            if i:
                confirm(i)
    elif sys.argv[1] == "confirm":
        for i in a or sorted(os.listdir(S)):
            confirm(i)
    else:
        for i in a or sorted(os.listdir(S)):
            hunt(i, which)
