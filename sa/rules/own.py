"""C08: data of the caller and recorded data are never modified."""
import ast

from .. import effects, lemma, terms as T
from ..report import ev_where, show, where
from ..values import Rec, Val

S = T.sym


def helpers(ctx):
    """Functions that are only ever called directly (their effects appear in the callers)."""
    calls, values = {}, {}
    for m in ctx.program():
        direct = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                direct.add(id(n.func))
            if isinstance(n, (ast.FunctionDef,)):
                for d in n.decorator_list:
                    direct.add(id(d))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                d = m.defs.get(n.id)
                if d is None:
                    continue
                q = f"{m.name}.{n.id}" if d[0] == "def" else f"{d[1]}.{d[2]}" if d[0] == "from" else None
                if q is None:
                    continue
                t = calls if id(n) in direct else values
                t[q] = t.get(q, 0) + 1
    return {q for q in calls if q not in values}


def scalar_param(f, p, default_scalars):
    if p.startswith(("n_", "max", "min")) or p in default_scalars:
        return True
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == p and isinstance(d, ast.Constant) and isinstance(d.value, (int, float)):
            return True
    return False


def number(e, p):
    """The augmented variable holds a number: a count, a limit or an option."""
    t = getattr(e.node, "target", None)
    name = t.id if isinstance(t, ast.Name) else ""
    return name.startswith(("n_", "max", "min")) or "options" in p or name in ("radius", "target_size", "batch_size")


def is_clip(e):
    """The write replaces x[i] by b under x[i] <= b (or >=): nothing changes for a value within its bounds."""
    if "index" not in e.data:
        return False
    cur = [T.mk("item", e.data["target"], e.data["index"])]
    r = e.data["rhs"]
    for c in T.subterms(e.guard):
        if c.op == "cmp" and c.args[0] == "<=":
            a, b = c.args[1], c.args[2]
            if (b is r and a.op == "item" and a.args[1] is e.data["index"]) or (a is r and b.op == "item" and b.args[1] is e.data["index"]):
                return True
    return False


def changes(it, own):
    """[(event, place)] in-place changes of objects that belong to the caller."""
    out = []
    for e in it.events:
        if e.kind == "write":
            for loc in sorted(e.data["locs"]):
                if loc.startswith("param:"):
                    p = loc[6:]
                    if e.data.get("aug") and "index" not in e.data and (own(p) or number(e, p)):
                        continue
                    if is_clip(e):
                        continue
                    out.append((e, p))
        elif e.kind == "mutate":
            for loc in sorted(e.data["locs"]):
                if loc.startswith("param:"):
                    out.append((e, loc[6:]))
        elif e.kind == "setattr" and e.data.get("base") is not None:
            out.append((e, show(e.data["base"])))
    return out


def inside_record(t):
    while t is not None and t.op in ("store", "item", "attr", "aliaswrite"):
        if t.op == "attr" and t.args[0].op == "sym":
            return True
        t = t.args[0]
    return False


def root(t):
    while t.op in ("store", "item", "attr", "aliaswrite"):
        t = t.args[0]
    return t


VIEWS = {"asarray", "asanyarray", "ravel", "reshape", "atleast_1d", "atleast_2d", "squeeze", "transpose", "array_view"}


def shares(t, results):
    """Does the array t possibly share memory with one of `results` or their elements?"""
    if t in results or t.op == "elem" and any(r in T.subterms(t) for r in results):
        return True
    if t.op == "ite":
        return any(shares(a, results) for a in t.args[1:])
    if t.op in ("store", "item", "attr", "aliaswrite"):
        return shares(t.args[0], results)
    if t.op == "call" and str(t.args[0]).split(".")[-1] in VIEWS and t.args[1]:
        return shares(t.args[1][0], results)
    return False


def returned(ctx, rep):
    """Values that the criterion returned belong to the caller, who may keep them."""
    from . import evalr
    it, st, evs, r, f = evalr.wrapper(ctx, [("map", evalr.K, evalr.E, evalr.E, Val(evalr.REPS), T.TRUE)])
    res = [e.data["result"] for e in evs if e.kind == "batch"]
    bad = [e for e in evs if e.kind in ("write", "mutate") and e.data.get("target") is not None and shares(e.data["target"], res)]
    rep.ob(not bad, "arguments", where(ctx, f.module, f.name), "values returned by the criterion are left unchanged",
           "; ".join(ev_where(ctx, e) for e in bad[:3]))


def fitted(ctx, rep):
    """Data handed to a fit: the infinity handler may return its argument itself."""
    from ..interp import Interp
    from .common import region_rec, sym_rec
    from .fit import handlers
    for h in handlers(ctx):
        it = Interp(ctx.project, {})
        f = it.find_func("get_fitter")
        st = lemma.start(it, f.module)
        it.comp_call = lambda i, c, args, kwargs, s, node: Val(i.ev_term("coef"), frozenset({i.newloc("coef")}))
        a = {k: Val(S(k)) for k in lemma.params(f)}
        a.update(infinity_handling=Val(T.const(h[0])), model_type=Val(T.const("quadratic")))
        r = it.resolve(it.call(f, [], a, st, f.node), st)
        kw = {k: Val(S(k), frozenset({"param:" + k})) for k in ("x", "y", "weights")}
        kw.update(region=region_rec(it, st, "region"), old_model=sym_rec(it, "VectorModel", "old"))
        it.call(r, [], kw, st, f.node)
        ctx.count(it)
        bad = changes(it, lambda p: False)
        rep.ob(not bad, "arguments", where(ctx, f.module, f.name), f"fits with {h[0]} handling leave their data unchanged",
               "; ".join(f"{p} at {ev_where(ctx, e)}" for e, p in bad[:3]))


def check_C08(ctx, rep):
    rep.rule("arguments", "no function that is called from outside changes an argument in place")
    rep.rule("records", "methods of models, regions and bounds leave their object and arguments unchanged")
    rep.rule("loop", "the main loop never writes to recorded models, points, values or data from the history")
    rep.assume("third-party routines change no argument except those documented to do so")
    hs = helpers(ctx)
    n = 0
    for f, it, st, r in ctx.sweep():
        q = f"{f.module}.{f.name}"
        got = changes(it, lambda p: scalar_param(f, p, ()))
        if q in hs and (f.name.startswith("_") or f.module.split(".")[-1].startswith("_")):
            # a helper may fill an array of its caller, but not an array inside a record
            got = [(e, p) for e, p in got if e.kind != "setattr" and inside_record(e.data.get("target"))]
            if not got:
                continue
        n += 1
        w = where(ctx, f.module, f.name)
        for e, p in got:
            rep.ob(False, "arguments", w, f"changes its argument {p} in place", f"at {ev_where(ctx, e)}")
        if not got:
            rep.ob(True, "arguments", w, "arguments are left unchanged")
    rep.note(f"{n} functions called from outside, {len(hs)} helpers analysed within their callers")
    for u in ctx.unanalysed:
        rep.note("not covered: " + u)
    from ..interp import Interp
    for m in ctx.program():
        for name, d in sorted(m.defs.items()):
            if d[0] != "def" or not isinstance(d[1], ast.ClassDef):
                continue
            it = Interp(ctx.project, {})
            ci = it.find_class(name)
            if ci.kind not in ("namedtuple", "dataclass"):
                continue
            for mn, mf in sorted(ci.methods.items()):
                if mn.startswith("__"):
                    continue
                it = Interp(ctx.project, {})
                ci = it.find_class(name)
                mf = ci.methods[mn]
                st = lemma.start(it, m.name)
                rec = Rec(ci, {x[0]: Val(S(f"self.{x[0]}"), frozenset({"param:self"})) for x in ci.fields})
                ps = lemma.params(mf)
                a = {p: Val(S(p), frozenset({f"param:{p}"})) for p in ps[1:]}
                w = where(ctx, m.name, f"{name}.{mn}")
                try:
                    it.call(mf, [rec], a, st, mf.node)
                except Exception as e:
                    rep.note(f"not covered: {w}: {type(e).__name__}")
                    continue
                ctx.count(it)
                got = changes(it, lambda p: False)
                rep.ob(not got, "records", w, "leaves the object and its arguments unchanged",
                       "; ".join(f"{p} at {ev_where(ctx, e)}" for e, p in got))
    returned(ctx, rep)
    fitted(ctx, rep)
    for m in [ctx.abstract()]:
        foreign = {"sym", "phi", "ev"}
        k = 0
        for e in m.it.events:
            if e.kind not in ("write", "setattr", "mutate"):
                continue
            if e.kind == "mutate" and e.data["loc"] is not None:
                continue
            k += 1
            t = e.data.get("target") if e.kind != "setattr" else e.data.get("base")
            if t is None:
                continue
            b = root(t)
            if e.kind == "write" and e.data.get("aug") and "index" not in e.data and not e.data["locs"] & {"param:x"} and b is t and b.op == "phi":
                # rebinding of a number that is carried by the loop
                continue
            bad = any(l.startswith("param:") for l in (e.data.get("locs") or ())) or b.op in ("role", "ev") or (
                b.op == "call" and b.args[0] in ("xs", "xsall", "fvals", "fvecs", "modelfvecs", "role", "inregion"))
            rep.ob(not bad, "loop", ev_where(ctx, e), "writes only to arrays of its own", show(t))
        rep.ob(True, "loop", "main loop", f"{k} in-place changes inspected")
