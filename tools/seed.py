"""Create and confirm planted bugs:  python3 tools/seed.py <module-with-SEEDS> [id ...]

Each entry: id -> dict(property, edits=[(file, old, new)], demo=<python source>, needs, breaks).
The patch is confirmed in a scratch copy: it applies, builds, passes the stable tests that pass
without it, and the demonstration fails with it and passes without it.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
ENVFAIL = "/tmp/seed-base-fail.json"
SH = """#!/bin/bash
# run in the repository root after the build
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src:$PYTHONPATH" PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
"""


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def failing(copy):
    """Ids of tests that do not pass in `copy`."""
    r = run([PY, "-m", "pytest", "-q", "-x" if False else "-q", "-n", "6", "-p", "no:cacheprovider", "tests"] if HAVE_XDIST
            else [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], copy,
            env={**os.environ, **ENV, "PYTHONPATH": copy + "/src"}, timeout=1500)
    out = set()
    for line in r.stdout.splitlines():
        if line.startswith(("FAILED ", "ERROR ")):
            out.add(line.split(" ")[1])
    if r.returncode not in (0, 1):
        out.add("no test run: " + r.stdout[-300:] + r.stderr[-300:])
    return out


HAVE_XDIST = run([PY, "-c", "import xdist"], "/tmp").returncode == 0


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    want = sys.argv[2:] or [k for k in mod.SEEDS if not os.path.exists(f"{ROOT}/seeded/{k}/meta.json")]
    if os.path.exists(ENVFAIL):
        base = set(json.load(open(ENVFAIL)))
    else:
        d = tempfile.mkdtemp(prefix="seedbase")
        run(f"cp -a /repo {d}/repo", "/")
        base = failing(f"{d}/repo")
        json.dump(sorted(base), open(ENVFAIL, "w"))
        shutil.rmtree(d)
    for k in want:
        s = mod.SEEDS[k]
        d = tempfile.mkdtemp(prefix="seed")
        c = f"{d}/repo"
        run(f"cp -a /repo {c}", "/")
        out = f"{d}/out"
        os.makedirs(out)
        with open(out + "/demo.py", "w") as f:
            f.write(s["demo"])
        with open(out + "/demo.sh", "w") as f:
            f.write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        clean = run(["bash", out + "/demo.sh"], c, timeout=300)
        bad = None
        for file, old, new in s["edits"]:
            p = f"{c}/src/tranquilo/{file}"
            t = open(p).read()
            if t.count(old) != 1:
                bad = f"{file}: {t.count(old)} matches of {old[:50]!r}"
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            print(k, "EDIT", bad)
            continue
        run("rm -rf .git/index.lock", c)
        patch = run(["git", "diff", "HEAD", "--", "src"], c).stdout
        with open(out + "/patch.diff", "w") as f:
            f.write(patch)
        broken = run(["bash", out + "/demo.sh"], c, timeout=300)
        msg = f"demo clean={clean.returncode} broken={broken.returncode}"
        if clean.returncode != 0 or broken.returncode == 0:
            print(k, "DEMO", msg, (clean.stderr + clean.stdout)[-400:], (broken.stderr + broken.stdout)[-200:])
            shutil.rmtree(d)
            continue
        fails = failing(c) - base
        if fails:
            print(k, "TESTS", len(fails), sorted(fails)[:4])
            shutil.rmtree(d)
            continue
        with open(out + "/meta.json", "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
        dst = f"{ROOT}/seeded/{k}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        env = {**os.environ, "SA_REPO": c, "SA_EVIDENCE": d + "/ev"}
        r = run(["python3", "-m", "sa", s["property"], "--tier", "quick"], ROOT, env=env)
        print(k, "OK", msg, "caught" if r.returncode == 1 else f"MISSED rc={r.returncode}")
        shutil.rmtree(d)


main()
