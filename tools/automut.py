"""Developer self-test: random small edits of the package that no check reports.

python3 tools/automut.py [-n N] [-s SEED] [-f FILE[,FILE]] [-o OUT]
Every survivor is listed for inspection: it is either equivalent, outside of
the properties, or a gap of the checks.
"""
import argparse
import ast
import concurrent.futures as cf
import os
import random
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/tranquilo"
FILES = ["acceptance_decision.py", "acceptance_sample_size.py", "adjust_n_evals.py", "adjust_radius.py", "aggregate_models.py",
         "bounds.py", "clustering.py", "estimate_variance.py", "filter_points.py", "fit_models.py", "geometry.py", "get_component.py",
         "handle_infinity.py", "history.py", "models.py", "options.py", "process_arguments.py", "region.py", "rho_noise.py",
         "sample_points.py", "solve_subproblem.py", "tranquilo.py", "volume.py", "weighting.py", "wrap_criterion.py", "poisedness.py",
         "exploration_sample.py", "utilities.py", "subsolvers/fallback_subsolvers.py", "subsolvers/linear_subsolvers.py"]
ORDER = "C26 C27 C25 C17 C10 C14 C04 C15 C06 C19 C12 C22 C23 C21 C13 C18 C09 C24 C11 C05 C02 C01 C03 C20 C16 C07 C08".split()
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}
NAMES = dict([p for a, b in (("lower", "upper"), ("min", "max"), ("any", "all"), ("argmin", "argmax"), ("floor", "ceil"), ("ones", "zeros"),
                             ("ones_like", "zeros_like"), ("minimum", "maximum"), ("mean", "median"), ("intersect1d", "setdiff1d"), ("fvals", "fvecs"),
                             ("get_fvals", "get_fvecs"), ("x", "candidate_x"), ("map_to_unit", "map_from_unit"), ("isfinite", "isnan"), ("var", "std"),
                             ("vstack", "hstack"), ("trustregion", "search_region"), ("exp", "log"), ("sqrt", "square")) for p in ((a, b), (b, a))])


def sites(path, src, rng):
    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            docs.add(n.body[0].value)
    out = []

    def add(n, new, what):
        out.append((n, new, what))
    for fn in ast.walk(tree):
        for n in ast.iter_child_nodes(fn):
            pass
    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        loc = sorted({a.arg for a in fn.args.args + fn.args.kwonlyargs} | {m.id for m in ast.walk(fn) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)})
        for n in ast.walk(fn):
            if isinstance(n, ast.FunctionDef) and n is not fn:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and len(loc) > 1:
                o = rng.choice([x for x in loc if x != n.id])
                add(n, o, f"name {n.id} -> {o}")
    for n in ast.walk(tree):
        if n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"{ast.unparse(n.left)} {CMP[type(n.ops[0])]} {ast.unparse(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, "(" + ast.unparse(ast.BinOp(n.left, BIN[type(n.op)](), n.right)) + ")", "arith")
        elif isinstance(n, ast.BoolOp):
            add(n, "(" + (" and " if isinstance(n.op, ast.Or) else " or ").join(f"({ast.unparse(v)})" for v in n.values) + ")", "bool")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, f"(not ({ast.unparse(n.test)}))", "negate")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, f"({ast.unparse(n.operand)})", "unary")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            add(n, repr(not n.value) if isinstance(n.value, bool) else repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 2 if n.value else 0.5), "const")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in NAMES:
            add(n, f"{ast.unparse(n.value)}.{NAMES[n.attr]}", "attr")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = [n.args[1], n.args[0]] + n.args[2:]
                add(n, ast.unparse(ast.Call(n.func, a, n.keywords)), "swap args")
            for i, k in enumerate(n.keywords):
                if k.arg:
                    add(n, ast.unparse(ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:])), f"drop {k.arg}")
        elif isinstance(n, (ast.Expr, ast.AugAssign)):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            add(n, ast.unparse(n.value), "no slice")
        elif isinstance(n, ast.Break):
            add(n, "pass", "no break")
    return out


WRAPS = ["np.abs({})", "np.maximum({}, 0)", "np.minimum({}, 1)", "np.clip({}, -1, 1)", "np.round({}, 6)", "np.nan_to_num({})", "({}) * (1 + 1e-6)",
         "np.where(np.abs({0}) < 1e-8, 0, {0})", "np.sort({})", "np.unique({})", "({})[::-1]", "({})[1:]", "np.asarray({}).astype(int)", "np.mean({}, axis=0)",
         "max({}, 1e-3)", "min({}, 10)", "({}) + 1e-3", "np.sign({0}) * np.sqrt(np.abs({0}))", "np.asarray({}).ravel()", "np.asarray({}).T"]


def wraps(path, src, rng):
    """Values that are put through a plausible further step."""
    tree = ast.parse(src)
    out = []
    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        cand = []
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                cand.append(n.value)
            elif isinstance(n, ast.Return) and n.value is not None:
                cand.append(n.value)
            elif isinstance(n, ast.Call):
                cand += [a for a in n.args if not isinstance(a, ast.Starred)] + [k.value for k in n.keywords if k.arg]
            elif isinstance(n, ast.Compare):
                cand += [n.left, *n.comparators]
            elif isinstance(n, ast.BinOp):
                cand += [n.left, n.right]
        for e in cand:
            if isinstance(e, (ast.Constant, ast.Lambda, ast.Dict, ast.List, ast.DictComp, ast.JoinedStr)):
                continue
            for w in rng.sample(WRAPS, 2):
                out.append((e, w.format(ast.unparse(e)), "wrap"))
    return out


def offsets(src):
    o, t = [0], 0
    for l in src.splitlines(keepends=True):
        t += len(l.encode())
        o.append(t)
    return o


def run(job):
    path, line, what, text, new = job
    d = tempfile.mkdtemp(prefix="amut-", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/src/tranquilo/{path}", "wb").write(new)
        bad = None
        for pr in ORDER:
            try:
                r = subprocess.run([sys.executable, "-m", "sa", pr], cwd=ROOT, capture_output=True, text=True, timeout=300,
                                   env={**os.environ, "SA_REPO": d, "SA_EVIDENCE": d})
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 9
            if rc == 1:
                return job, "caught " + pr
            if rc != 0:
                bad = f"broken {pr}"
        if TESTS:
            for x in ("tests", "pyproject.toml", "setup.cfg", "tox.ini"):
                q = "/repo/" + x
                if os.path.isdir(q):
                    shutil.copytree(q, d + "/" + x, ignore=shutil.ignore_patterns("__pycache__"))
                elif os.path.exists(q):
                    shutil.copy(q, d)
            env = {**os.environ, "PYTHONPATH": d + "/src", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
                   "OPENBLAS_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1", "NUMBA_CACHE_DIR": "/tmp/numba-cache"}
            ig = [] if path.startswith("subs") else ["--ignore=tests/subsolvers"]
            cmd = ["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=250", "--ignore=tests/test_visualize.py"] + ig
            for k in KNOWN_FAIL:
                cmd += ["--deselect", k]
            try:
                r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=600, env=env)
                if r.returncode == 1:
                    return job, "tests"
                if r.returncode != 0:
                    return job, f"testerror {r.returncode}"
            except subprocess.TimeoutExpired:
                return job, "tests timeout"
        return job, bad or "SURVIVED"
    finally:
        shutil.rmtree(d)


TESTS = False
KNOWN_FAIL = [l.strip() for l in open("/tmp/knownfail.txt")] if os.path.exists("/tmp/knownfail.txt") else []


def main():
    global TESTS
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=200)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-f", default=None)
    ap.add_argument("-o", default="/tmp/automut.txt")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-t", action="store_true", help="also run the tests of the repository on survivors")
    ap.add_argument("-w", action="store_true", help="wrap values")
    a = ap.parse_args()
    TESTS = a.t
    rng = random.Random(a.s)
    jobs = []
    for f in (a.f.split(",") if a.f else FILES):
        src = open(f"{SRC}/{f}").read()
        b, o = src.encode(), offsets(src)
        for n, new, what in (wraps if a.w else sites)(f, src, rng):
            i, j = o[n.lineno - 1] + n.col_offset, o[n.end_lineno - 1] + n.end_col_offset
            old = b[i:j].decode()
            res = b[:i] + new.encode() + b[j:]
            try:
                compile(res, f, "exec")
            except SyntaxError:
                continue
            jobs.append((f, n.lineno, what, f"{' '.join(old.split())[:70]} => {' '.join(new.split())[:70]}", res))
    rng.shuffle(jobs)
    total = len(jobs)
    jobs = jobs[: a.n]
    print(f"{total} sites, {len(jobs)} tried", flush=True)
    n = {}
    with cf.ThreadPoolExecutor(a.j) as ex, open(a.o, "w") as out:
        for job, res in ex.map(run, jobs):
            k = res.split()[0]
            n[k] = n.get(k, 0) + 1
            if k not in ("caught", "tests"):
                out.write(f"{job[0]}:{job[1]} [{job[2]}] {job[3]} {res}\n")
                out.flush()
    print(n)


if __name__ == "__main__":
    main()
