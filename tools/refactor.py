"""Behaviour-preserving rewrites of the SDK, to see that the checks stay quiet.

    refactor.py KIND DEST   copy /repo to DEST and rewrite snuba_sdk there
    refactor.py sweep [-p C01,..] [-k KIND,..] [-s 1,2]   run the checks against the rewrites
"""
import ast
import glob
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Noop(ast.NodeTransformer):
    """A statement that does nothing at the start of every function."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if ast.get_docstring(n) is not None else 0
        n.body.insert(i, ast.parse("_unused = 0" if "property" not in ast.dump(n) else "None").body[0])
        return n


class Tmp(ast.NodeTransformer):
    """return E -> result = E; return result; if C -> flag = C; if flag."""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value), ast.Return(ast.Name("result_", ast.Load()))]


class Loops(ast.NodeTransformer):
    """List comprehensions become generator calls; for loops go over a list copy."""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (ast.Name, ast.Attribute)):
            n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
        return n


class Helper(ast.NodeTransformer):
    """Every plain method's body moves to a helper of its own."""

    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            if (
                isinstance(f, ast.FunctionDef)
                and not f.decorator_list
                and not f.name.startswith("__")
                and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs and not f.args.posonlyargs
                and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f))
                and not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f))
                and f.args.args
            ):
                h = ast.FunctionDef("_do_" + n.name.lower() + "_" + f.name, ast.arguments([], [ast.arg(a.arg) for a in f.args.args], None, [], [], None, []), f.body, [], None, None)
                call = ast.Call(ast.Attribute(ast.Name(f.args.args[0].arg, ast.Load()), h.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], [])
                f.body = [ast.Return(call)]
                out += [f, h]
            else:
                out.append(f)
        n.body = out
        return n


class Flip(ast.NodeTransformer):
    """if C: A else: B -> if not C: B else: A."""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


KINDS = {"noop": [Noop], "tmp": [Tmp], "loops": [Loops], "helper": [Helper], "flip": [Flip], "plain": [], "all": [Helper, Loops, Flip, Tmp, Noop]}


def make(kind, dest):
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree("/repo", dest, symlinks=True)
    for p in glob.glob(dest + "/snuba_sdk/**/*.py", recursive=True):
        t = ast.parse(open(p).read())
        for k in KINDS[kind]:
            t = ast.fix_missing_locations(k().visit(t))
        with open(p, "w") as f:
            f.write("# rewritten\n" + ast.unparse(t) + "\n# end\n")


def tests(dest):
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-W", "ignore::DeprecationWarning", "tests"], cwd=dest, env=dict(os.environ, PYTHONPATH=dest, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
    return r.stdout.strip().splitlines()[-1] if r.stdout else r.stderr[-300:]


if __name__ == "__main__":
    if sys.argv[1] != "sweep":
        make(sys.argv[1], sys.argv[2])
        print(tests(sys.argv[2]))
        sys.exit()
    a = sys.argv[2:]
    opt = lambda k, d: a[a.index(k) + 1].split(",") if k in a else d
    for kind in opt("-k", sorted(KINDS)):
        dest = "/tmp/refactor-" + kind
        make(kind, dest)
        print(kind, tests(dest), flush=True)
        for seed in opt("-s", ["1"]):
            for p in opt("-p", ["C%02d" % i for i in range(1, 14)]):
                t = time.time()
                r = subprocess.run(["python3", "-m", "sim.check", p], cwd=V, env=dict(os.environ, VERIF_REPO=dest, VERIF_SEED=seed, VERIF_TIER="quick"), capture_output=True, text=True)
                print("%-8s seed %s %s rc=%d %3.0fs %s" % (kind, seed, p, r.returncode, time.time() - t, "" if r.returncode == 0 else (r.stdout + r.stderr)[-1500:]), flush=True)
        shutil.rmtree(dest, ignore_errors=True)
