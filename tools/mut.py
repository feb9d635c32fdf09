"""Developer self-test: run checks on edited copies of the package.

python3 tools/mut.py [-k substring] [-p PROP]   (edits from tools/mutants.py)
Breaking edits must be reported by the named property; harmless edits by none.
"""
import argparse
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)


def run(name, props, edits):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        for f, a, b in edits:
            p = f"{d}/src/tranquilo/{f}"
            s = open(p).read()
            if s.count(a) < 1:
                return name, props, "STALE", f"{f}: {a[:50]!r}"
            open(p, "w").write(s.replace(a, b, 1))
            compile(open(p).read(), p, "exec")
        out = {}
        for pr in props:
            r = subprocess.run([sys.executable, "-m", "sa", pr], cwd=ROOT, capture_output=True, text=True,
                               env={**os.environ, "SA_REPO": d, "SA_EVIDENCE": d})
            out[pr] = (r.returncode, [l for l in (r.stdout + r.stderr).splitlines() if "violated" in l or "ERROR" in l or "Error" in l][:2])
        return name, props, "RAN", out
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-p", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from mutants import BREAK, HARMLESS
    from sa.rules import RULES
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for props, name, edits in BREAK:
            props = props.split()
            if a.k in name and (not a.p or a.p in props):
                ps = [x for x in props if x in RULES and (not a.p or x == a.p)]
                if ps:
                    jobs.append((True, ex.submit(run, name, ps, edits)))
        for name, edits in HARMLESS:
            if a.k in name:
                jobs.append((False, ex.submit(run, name, [a.p] if a.p else sorted(RULES), edits)))
        nb = ng = 0
        for breaking, j in jobs:
            name, props, status, out = j.result()
            if status != "RAN":
                print(status, name, out)
                continue
            for p, (rc, lines) in out.items():
                want = 1 if breaking else 0
                if rc != want:
                    nb += 1
                    print("MISSED" if breaking and rc == 0 else ("ALARM" if not breaking and rc == 1 else f"ERROR({rc})"), p, name, "|", (lines or [""])[0][:330])
                else:
                    ng += 1
                    if a.v:
                        print("ok", p, name, "|", (lines or [""])[0][:200])
        print(f"{ng} as expected, {nb} not")


if __name__ == "__main__":
    main()
