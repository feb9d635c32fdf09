"""Developer self-test: breaking edits of tools/mutants.py in rewritten code; the named property must still report them.

python3 tools/mutref.py [-p PROP] [-s SEED] [-j JOBS] [-t TRANSFORM+TRANSFORM]
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import os
import random
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)


def one(job):
    import refactor
    name, prop, edits, trans = job
    d = tempfile.mkdtemp(prefix="mrf-", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        for f, a, b in edits:
            p = f"{d}/src/tranquilo/{f}"
            s = open(p).read()
            if s.count(a) < 1:
                return job, "STALE", ""
            open(p, "w").write(s.replace(a, b, 1))
        sigs, names = refactor.prepare(d + "/src")
        refactor.Kwargs.sigs = refactor.Positional.sigs = sigs
        refactor.RenamePrivate.names = names
        for q, _, fs in os.walk(d + "/src"):
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(q, f)
                    s = open(p).read()
                    new = copy.deepcopy(ast.parse(s))
                    for k in trans:
                        c = refactor.TRANSFORMS[k]()
                        c.np = "import numpy as np" in s
                        new = ast.parse(ast.unparse(ast.fix_missing_locations(c.visit(new))))
                    open(p, "w").write(ast.unparse(new) + "\n")
        rc, ls = refactor.check(d, prop)
        return job, rc, (ls or [""])[0][:200]
    except SyntaxError as e:
        return job, "SYNTAX", str(e)
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-p", default="")
    ap.add_argument("-s", type=int, default=0)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-t", default="")
    a = ap.parse_args()
    import refactor
    from mutants import BREAK
    rng = random.Random(a.s)
    jobs = []
    for props, name, edits in BREAK:
        for p in props.split():
            trans = a.t.split("+") if a.t else rng.sample(list(refactor.TRANSFORMS), 3)
            if not a.p or a.p == p:
                jobs.append((name, p, edits, trans))
    n = bad = 0
    with cf.ProcessPoolExecutor(a.j) as ex:
        for job, rc, text in ex.map(one, jobs):
            n += 1
            if rc != 1:
                bad += 1
                print(rc, job[1], job[0], "+".join(job[3]), "|", text, flush=True)
    print(n, "runs,", bad, "not reported")


if __name__ == "__main__":
    main()
