"""C17: no path of the optimizer ends in an error of use (unbound variable, wrong arguments, unknown field)."""
import ast

from .. import eqv, lemma, models, terms as T
from ..interp import Interp
from ..project import Broken
from ..values import InstS, ListS, DictS, Val
from .common import region_rec, sym_rec
from . import batch

S = T.sym
LIMIT = 4000
MAIN = "the optimizer"
RULE = {"unbound": "bound", "name": "bound", "import": "bound", "arity": "calls", "attr": "fields", "none": "fields", "unpack": "fields"}
TEXT = {"bound": "every variable that is read is assigned on all paths to it, every name is defined",
        "calls": "every call of a function of the package passes the arguments the function takes",
        "fields": "fields and attributes of records of the package exist, nothing is read from None, sequences are unpacked into as many targets"}


def typed(it, st, p):
    """Arguments that are records of the package, by the role their name has throughout the package."""
    if p in ("trustregion", "region", "search_region", "old_region", "new_region"):
        return region_rec(it, st, p)
    if p == "bounds":
        return it.construct(it.find_class("Bounds"), [], {"lower": Val(S("lower")), "upper": Val(S("upper"))}, st, None)
    if p in ("state", "old_state"):
        return sym_rec(it, "State", p, {"trustregion": region_rec(it, st, "tr"), "vector_model": typed(it, st, "vector_model"), "model": typed(it, st, "scalar_model")})
    if p == "subproblem_solution":
        return sym_rec(it, "SubproblemResult", "sub")
    if p in ("vector_model", "old_vector_model"):
        return sym_rec(it, "VectorModel", p, regions(it, st, "VectorModel", p))
    if p == "scalar_model":
        return sym_rec(it, "ScalarModel", p, regions(it, st, "ScalarModel", p))
    if p == "history":
        h = it.construct(it.find_class("History"), [Val(S("functype"))], {}, st, None)
        o = it.hobj(st, h)
        a = {k: it.alloc(st, DictS([("splice", S("h." + k))])) if "map" in k else Val(S("h." + k)) if k != "functype" else v for k, v in o.attrs.items()}
        st.heap[h.loc] = InstS(o.cls, a)
        return h
    return None


def regions(it, st, cls, p):
    return {f: region_rec(it, st, f"{p}.{f}") for f in [x[0] for x in it.find_class(cls).fields] if f in ("region", "trustregion")}


def kernel(m):
    """Numeric kernels (iterative solvers, poisedness): which of their variables are set depends on floating point values."""
    return ".subsolvers._" in m or m.rpartition(".")[2].startswith(("bntr", "gqtpar", "poisedness"))


def functions(ctx):
    for m in ctx.program():
        for name, d in m.defs.items():
            if d[0] == "def" and isinstance(d[1], ast.FunctionDef):
                yield m, name, d[1]


def skeleton(c):
    """The condition as a combination of atoms, without the values the atoms compare."""
    if c.op == "not":
        return T.tnot(skeleton(c.args[0]))
    if c.op == "and":
        return T.tand(*[skeleton(x) for x in c.args])
    if c.op == "or":
        return T.tor(*[skeleton(x) for x in c.args])
    if c.op == "ite":
        return T.ite(skeleton(c.args[0]), skeleton(c.args[1]), skeleton(c.args[2]))
    if c.op == "cmp" and c.args[0] == "==" and T.NONE in c.args[1:]:
        return missing(c.args[2] if c.args[1] is T.NONE else c.args[1])
    return c


def missing(t):
    """Is the value None? What arithmetic, libraries and components return is not."""
    if t is T.NONE:
        return T.TRUE
    if t.op == "ite":
        c, a, b = skeleton(t.args[0]), missing(t.args[1]), missing(t.args[2])
        return T.tor(T.tand(c, a), T.tand(T.tnot(c), b))
    if t.op in ("sym", "attr", "item", "elem", "phi"):
        return T.cmp("==", T.NONE, t)
    return T.FALSE


def real(it, q, cond):
    """Can the point of the issue be reached with the condition? Decided by a decision table over its atoms."""
    g = T.tand(q[5], cond)
    if RULE[q[0]] == "fields" and any(batch.name(u) in ("isinst", "type", "isinstance") for u in T.subterms(g)):
        return False  # which type the value has is not known here
    sizes = [None]
    if any(u is batch.B for u in T.subterms(g)):
        sizes = [1] + list(range(2, batch.LARGE)) + [None]
    for n in sizes:
        c = T.subst(g, {batch.B: T.const(n)}) if n else g
        if len(sizes) > 1:
            c = batch.Lines().do(batch.decided(c) if n is None else c)
        if satisfiable(skeleton(c)):
            return True
    return False


def satisfiable(c, path=(), steps=None):
    steps = [0] if steps is None else steps
    steps[0] += 1
    if c is T.FALSE or steps[0] > LIMIT:
        return False
    if c is T.TRUE:
        return True
    lit = atom(c)
    k = eqv.sign_key(lit)
    if k is not None:
        for sg in (-1, 0, 1):
            if eqv.linear_conflict(k[0], sg, list(path)) or batch.impossible(k[0], sg, path):
                continue
            if satisfiable(skeleton(eqv.assign_sign([c], k[0], sg)[0]), path + ((k[0], sg),), steps):
                return True
        return False
    return any(satisfiable(skeleton(eqv.assign([c], lit, v)[0]), path + ((lit, v),), steps) for v in (True, False))


def atom(c):
    while c.op in ("and", "or", "not", "ite"):
        c = c.args[0]
    return c


def check_C17(ctx, rep):
    for r, t in TEXT.items():
        rep.rule(r, t)
    seen, done = {}, {}

    def take(it, name):
        for q in it.issues:
            r = RULE.get(q[0])
            if r is None or q[0] == "unbound" and (name is MAIN or kernel(q[1])):
                continue
            key = (r,) + tuple(q[1:3]) + (q[4],)
            if seen.get(key) is False or key in seen and q[0] != "unbound":
                continue
            ok = not real(it, q, q[7] if len(q) > 6 else T.TRUE)
            seen[key] = ok
            m = ctx.project.modules.get(q[1])
            rep.ob(ok, r, (ctx.project.rel(q[1]) if m else q[1]) + ":" + q[2], q[4], f"line {q[3]}, reached from {name}" + ("" if q[5] is T.TRUE else ", when " + T.show(q[5], -3)[:200]))

    for d in ctx.deciders()[1]:
        m = ctx.main(d)
        take(m.it, MAIN)
        rep.ob(True, "calls", "whole program", f"analysed with acceptance rule {d}")
    n = 0
    for m, name, node in functions(ctx):
        n += 1
        hooks = {} if m.name.endswith("get_component") else {"tranquilo.get_component.get_component": models.component}
        it = Interp(ctx.project, hooks)
        it.components, it.added, it.versions = [], {}, {}
        f = it.find_func(name, m.name)
        st = lemma.start(it, m.name)
        a = {}
        for p in lemma.params(f):
            v = typed(it, st, p)
            a[p] = v if v is not None else Val(S(p))
        if f.node.args.kwarg is not None:
            a.pop(f.node.args.kwarg.arg, None)
            a["**"] = Val(S("**"))
        it.call(f, [], a, st, f.node)
        ctx.count(it)
        bad = len(rep.violations())
        take(it, name)
        if len(rep.violations()) == bad:
            for r in TEXT:
                rep.ob(True, r, ctx.project.rel(m.name) + ":" + name, f"all paths, {it.callsites} calls")
    if n < 80:
        raise Broken(f"only {n} functions found")
