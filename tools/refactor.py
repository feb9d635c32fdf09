"""Developer self-test: behaviour-preserving rewrites of the whole package; every check must stay quiet.

python3 tools/refactor.py [-k transform] [-p PROP] [-f file]
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

FN = (ast.FunctionDef, ast.Lambda)


def stored(fn):
    """Local names bound in the function itself (nested scopes excluded) and names used in nested scopes."""
    names, nested, params = set(), set(), set()
    a = fn.args
    for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        params.add(x.arg)

    def walk(n, top):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    nested.add(c.name)
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    for x in ast.walk(c):
                        if isinstance(x, ast.arg):
                            nested.add(x.arg)
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            nested.add(x.id)
                walk(c, False)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                (names if top else nested).add(c.id)
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                nested.update(c.names)
            walk(c, top)
    walk(fn, True)
    return names - params - nested


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        loc = stored(n) - {a.asname or a.name for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_v"
        for c in n.body:
            for x in ast.walk(c):
                if isinstance(x, ast.FunctionDef):
                    self.visit_FunctionDef(x)
        return n


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(k, ast.parse("pass").body[0])
        n.body.insert(k, ast.parse("_unused = 0").body[0])
        return n


def is_elif(n):
    return len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)


class SwapIf(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [self.M[type(n.ops[0])]()]
        return n


class ReturnVar(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value), ast.Return(ast.Name("result_", ast.Load()))]

    def visit_Lambda(self, n):
        return n


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class IfStmt(ast.NodeTransformer):
    """a = b if c else d -> if statement."""

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            mk = lambda v: ast.Assign([copy.deepcopy(n.targets[0])], v)
            return ast.If(n.value.test, [mk(n.value.body)], [mk(n.value.orelse)])
        return n


class IfExp(ast.NodeTransformer):
    """if statement with one assignment each -> conditional expression."""

    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and all(isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) for b in (n.body[0], n.orelse[0])) \
                and n.body[0].targets[0].id == n.orelse[0].targets[0].id:
            return ast.Assign([n.body[0].targets[0]], ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n


class Temps(ast.NodeTransformer):
    """Calls that are arguments of the outermost call of an assignment get names (evaluation order kept)."""

    def __init__(self):
        self.k = 0

    def visit_Assign(self, n):
        c = n.value
        if not isinstance(c, ast.Call) or not isinstance(c.func, (ast.Name, ast.Attribute)) or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return n
        if any(isinstance(x, (ast.Lambda, ast.GeneratorExp)) for x in ast.walk(c)):
            return n
        out = []
        for i, a in enumerate(c.args):
            if isinstance(a, (ast.Call, ast.BinOp)):
                self.k += 1
                out.append(ast.Assign([ast.Name(f"tmp_{self.k}", ast.Store())], a))
                c.args[i] = ast.Name(f"tmp_{self.k}", ast.Load())
        for kw in c.keywords:
            if isinstance(kw.value, (ast.Call, ast.BinOp)):
                self.k += 1
                out.append(ast.Assign([ast.Name(f"tmp_{self.k}", ast.Store())], kw.value))
                kw.value = ast.Name(f"tmp_{self.k}", ast.Load())
        return out + [n]


class WhileTrue(ast.NodeTransformer):
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test, ast.Constant):
            return n
        n.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []))
        n.test = ast.Constant(True)
        return n


class CompLoop(ast.NodeTransformer):
    """x = [f(a) for a in b] -> loop; also dictionaries."""

    def visit_Assign(self, n):
        v = n.value
        if len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name) or not isinstance(v, (ast.ListComp, ast.DictComp)) or len(v.generators) != 1:
            return n
        g = v.generators[0]
        name = n.targets[0].id
        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(v)):
            return n
        new = name + "_acc"
        if isinstance(v, ast.ListComp):
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(new, ast.Load()), "append", ast.Load()), [v.elt], []))
            init = ast.List([], ast.Load())
        else:
            body = ast.Assign([ast.Subscript(ast.Name(new, ast.Load()), v.key, ast.Store())], v.value)
            init = ast.Dict([], [])
        for c in reversed(g.ifs):
            body = ast.If(c, [body], [])
        return [ast.Assign([ast.Name(new, ast.Store())], init), ast.For(g.target, g.iter, [body], []),
                ast.Assign([n.targets[0]], ast.Name(new, ast.Load()))]


class Method(ast.NodeTransformer):
    """(a > b).any() -> np.any(a > b), x.sum(axis=..) -> np.sum(x, axis=..)."""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("any", "all", "sum", "reshape") and not (isinstance(f.value, ast.Name) and f.value.id in ("np", "pd", "scipy")) and self.np:
            if f.attr == "reshape" and len(n.args) != 1:
                if any(isinstance(a, ast.Starred) for a in n.args):
                    return n
                n.args = [ast.Tuple(n.args, ast.Load())]
            return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), f.attr, ast.Load()), [f.value] + n.args, n.keywords)
        return n


class DeMorgan(ast.NodeTransformer):
    """if a and b -> if not (not a or not b)  (conditions only)."""

    def fix(self, t):
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return t

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.fix(n.test)
        return n

    visit_While = visit_If
    visit_IfExp = visit_If


class NestAnd(ast.NodeTransformer):
    """if a and b: (no else) -> if a: if b:"""

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse and len(n.test.values) == 2:
            return ast.If(n.test.values[0], [ast.If(n.test.values[1], n.body, [])], [])
        return n


class ElseAfterReturn(ast.NodeTransformer):
    """if c: ...return; rest -> if c: ... else: rest"""

    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class Kwargs(ast.NodeTransformer):
    """Positional arguments of functions of the package become keywords."""
    sigs = {}

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.sigs and not any(isinstance(a, ast.Starred) for a in n.args):
            ps = self.sigs[n.func.id]
            if len(n.args) <= len(ps):
                n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                n.args = []
        return n


class Positional(ast.NodeTransformer):
    """Keyword arguments of functions of the package become positional (as far as possible)."""
    sigs = {}

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.sigs and not n.args and not any(k.arg is None for k in n.keywords):
            ps = self.sigs[n.func.id]
            d = {k.arg: k.value for k in n.keywords}
            # order of evaluation does not matter for names and attributes
            if not all(not any(isinstance(x, ast.Call) for x in ast.walk(v)) for v in d.values()):
                return n
            args = []
            for p in ps:
                if p not in d:
                    break
                args.append(d.pop(p))
            n.args, n.keywords = args, [ast.keyword(k, v) for k, v in d.items()]
        return n


class Wrap(ast.NodeTransformer):
    """Every module-level function delegates to an extracted helper with the whole body."""

    def visit_Module(self, m):
        out = []
        for n in m.body:
            if isinstance(n, ast.FunctionDef) and not n.decorator_list and not n.args.vararg and not n.args.kwarg and not n.name.startswith("__"):
                h = copy.deepcopy(n)
                h.name = ("_inner" if n.name.startswith("_") else "_impl_") + n.name
                a = h.args
                a.kwonlyargs, a.args = [], a.posonlyargs + a.args + a.kwonlyargs
                a.posonlyargs, a.defaults, a.kw_defaults = [], [], []
                out.append(h)
                k = [s for s in n.body[:1] if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)]
                n.body = k + [ast.Return(ast.Call(ast.Name(h.name, ast.Load()), [], [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.args]))]
            out.append(n)
        m.body = out
        return m


class RenamePrivate(ast.NodeTransformer):
    """Private functions that no test imports get another name."""
    names = set()

    def visit_Name(self, n):
        if n.id in self.names:
            n.id = n.id + "_renamed"
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name += "_renamed"
        return n

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name in self.names:
                a.name += "_renamed"
        return n


class SplitTuple(ast.NodeTransformer):
    """Reorder independent neighbouring assignments of constants/names."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        b = n.body
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(u, ast.Call) for u in ast.walk(s.value)) for s in (x, y)):
                rx, ry = ({u.id for u in ast.walk(s.value) if isinstance(u, ast.Name)} for s in (x, y))
                if x.targets[0].id not in ry and y.targets[0].id not in rx and x.targets[0].id != y.targets[0].id:
                    b[i], b[i + 1] = y, x
        return n


class ChainReplace(ast.NodeTransformer):
    """x._replace(a=1, b=2) -> x._replace(a=1)._replace(b=2)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "_replace" and len(n.keywords) > 1 and all(k.arg for k in n.keywords):
            x = n.func.value
            for k in n.keywords:
                x = ast.Call(ast.Attribute(x, "_replace", ast.Load()), [], [k])
            return x
        return n


TRANSFORMS = {c.__name__: c for c in (Rename, Noop, SwapIf, Flip, ReturnVar, Aug, IfStmt, IfExp, Temps, WhileTrue, CompLoop, Method,
                                       DeMorgan, NestAnd, ElseAfterReturn, Kwargs, Positional, Wrap, RenamePrivate, SplitTuple, ChainReplace)}


def prepare(src):
    """Signatures of the functions of the package, names that tests import."""
    sigs, private = {}, set()
    seen = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".py"):
                t = ast.parse(open(os.path.join(d, f)).read())
                for n in t.body:
                    if isinstance(n, ast.FunctionDef):
                        seen.setdefault(n.name, []).append(n)
                        if n.name.startswith("_"):
                            private.add(n.name)
    for k, v in seen.items():
        if len(v) == 1 and not v[0].args.vararg and not v[0].args.posonlyargs:
            sigs[k] = [a.arg for a in v[0].args.args]
    used = set()
    for d, _, fs in os.walk("/repo/tests"):
        for f in fs:
            if f.endswith(".py"):
                s = open(os.path.join(d, f)).read()
                used |= {p for p in private if p in s}
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".py"):
                s = open(os.path.join(d, f)).read()
                used |= {p for p in private if f".{p}" in s or f'"{p}"' in s}
    return sigs, private - used


def transform(name, only=None):
    d = tempfile.mkdtemp(prefix="ref-", dir="/tmp")
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    Kwargs.sigs = Positional.sigs = sigs = prepare(d + "/src")[0]
    RenamePrivate.names = prepare(d + "/src")[1]
    changed = 0
    for p, _, fs in os.walk(d + "/src"):
        for f in fs:
            if not f.endswith(".py") or (only and f != only):
                continue
            q = os.path.join(p, f)
            s = open(q).read()
            t = ast.parse(s)
            before = ast.unparse(t)
            new = copy.deepcopy(t)
            for one in name.split("+"):
                c = TRANSFORMS[one]()
                c.np = "import numpy as np" in s
                new = ast.parse(ast.unparse(ast.fix_missing_locations(c.visit(new))))
            after = ast.unparse(new)
            if after != before:
                changed += 1
                compile(after, q, "exec")
                open(q, "w").write(after + "\n")
    return d, changed


def check(d, prop):
    r = subprocess.run(["timeout", "600", sys.executable, "-m", "sa", prop], cwd=ROOT, capture_output=True, text=True, env={**os.environ, "SA_REPO": d, "SA_EVIDENCE": d})
    return r.returncode, [l for l in (r.stdout + r.stderr).splitlines() if "violated" in l or "ERROR" in l or "Error" in l][:2]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-p", default="")
    ap.add_argument("-f", default="")
    ap.add_argument("--tests", action="store_true", help="run the test suite of the package on the rewritten code")
    a = ap.parse_args()
    from sa.rules import RULES
    bad = 0
    n = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for name in ([a.k] if "+" in a.k else TRANSFORMS):
            if a.k and a.k != name:
                continue
            d, changed = transform(name, a.f or None)
            try:
                if a.tests:
                    env = {**os.environ, "PYTHONPATH": d + "/src"}
                    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-n", "8", "/repo/tests", "-p", "no:cacheprovider"], cwd=d, capture_output=True, text=True, env=env)
                    print(name, changed, "files;", r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else r.stderr[-200:])
                    continue
                props = [a.p] if a.p else sorted(RULES)
                for p, (rc, ls) in zip(props, ex.map(lambda p: check(d, p), props)):
                    n += 1
                    if rc != 0:
                        bad += 1
                        print("ALARM" if rc == 1 else "BROKEN", name, p, "|", (ls or [""])[0][:230])
            finally:
                shutil.rmtree(d)
    print(n, "runs,", bad, "not quiet")


if __name__ == "__main__":
    main()
