"""C14: the solution of the trust-region subproblem."""
from .. import lemma, models, terms as T
from ..interp import Interp
from ..project import Broken
from ..report import show
from ..values import Rec, Ref, Val
from .common import canon, oracle, region_rec, same, sym_rec

S = T.sym


def predict_hooks():
    h = {**models.region_hooks(), **models.bounds_hooks()}

    def pred(interp, st, f, args, kwargs, node):
        b = list(interp.bind(f, args, kwargs, st, node).values())
        return Val(T.call("predict", interp.tm(b[0], st), interp.tm(b[1], st)), frozenset({interp.newloc("new")}))
    h["tranquilo.models.ScalarModel.predict"] = pred
    return h


def component_hook(found):
    def hook(interp, st, f, args, kwargs, node):
        b = interp.bind(f, args, kwargs, st, node)
        n = interp.tm(b["component_name"], st)
        who = interp.tm(b["name_or_func"], st)
        reg = []
        fd = interp.resolve(b["func_dict"], st) if "func_dict" in b else None
        if isinstance(fd, Ref):
            reg = sorted(str(T.cval(p[1])) for p in interp.hobj(st, fd).parts if p[0] == "kv" and T.is_const(p[1]))
        s = S(f"component {show(who)} of {'/'.join(reg)}")
        found.append((s, who, tuple(reg), {k: interp.tm(v, st) for k, v in b.items()}, n))
        return Val(s)
    return hook


def check_C14(ctx, rep):
    rep.rule("solvers", "the configured solver and the fallback of the kind of the region are available")
    rep.rule("result", "the result is the solver's point with its predicted improvement, or the centre without improvement")
    rep.rule("failure", "an exception of the solver is passed on exactly if no fallback is wanted")
    found = []
    hooks = predict_hooks()
    hooks["tranquilo.get_component.get_component"] = component_hook(found)
    it = Interp(ctx.project, hooks)
    f = it.find_func("get_subsolver")
    st = lemma.start(it, f.module)
    solver = it.call(f, [], {p: Val(S(p)) for p in lemma.params(f)}, st, f.node)
    w = f"{ctx.project.rel(f.module)}:{f.name}"
    kinds = {}
    for s, who, reg, b, n in found:
        if who.op == "sym":
            kinds[who.args[0]] = (s, reg)
    args = {}
    for kind in ("sphere", "cube"):
        k = kinds.get(kind + "_solver")
        rep.ob(k is not None and k[1], "solvers", w, f"the {kind} solver is taken from the built-in {kind} solvers")
        if k is None:
            return
        fb = [(s, who) for s, who, reg, b, n in found if T.is_const(who) and reg == k[1]]
        ok = len({x[0] for x in fb}) == 1 and T.cval(fb[0][1]) in k[1]
        rep.ob(ok, "solvers", w, f"one fallback solver among the built-in {kind} solvers", "; ".join(show(x[1]) for x in fb))
        if not ok:
            return
        args[kind + "_solver"] = k[0]
        args[f"fallback_{kind}_solver"] = fb[0][0]
    model = sym_rec(it, "ScalarModel", "model")
    region = region_rec(it, st, "region")
    r = it.call(solver, [], {"model": model, "trustregion": region}, st, f.node)
    r = it.resolve(r, st)
    ctx.count(it)
    ci = it.find_class("SubproblemResult")

    def make(io, so):
        return {"model": sym_rec(io, "ScalarModel", "model"), "region": region_rec(io, so, "region")}
    io, so, want = oracle(ctx, "subproblem", args, hooks=predict_hooks(), make=make)
    ro = None
    for e in io.events:
        if e.kind == "raise":
            ro = e
    shape = [u for u in T.subterms(want) if u.op == "call" and u.args[0] == "region.shape"][0]
    extra = {T.cmp("==", shape, T.const("cube")): T.tnot(T.cmp("==", shape, T.const("sphere")))}
    rep.assume("a region is either a sphere or a cube (C18)")
    site = [e for e in it.events if e.kind == "opaque"]
    w = f"{ctx.project.rel(site[0].module)}:{site[0].func}" if site else w
    for k in [x[0] for x in ci.fields]:
        if not isinstance(r, Rec):
            raise Broken("the result of the subproblem solver is not a record")
        from ..interp import item
        got = canon(it, it.tm(r.fields[k], st), extra)
        ref = canon(io, item_of(want, k), extra)
        same(rep, "result", w, f"field {k} of the result", got, ref, limit=20000)
    raises = [e for e in it.events if e.kind == "raise"]
    g = T.FALSE
    for e in raises:
        g = T.tor(g, canon(it, e.guard, extra))
    same(rep, "failure", w, "the exception is passed on", g, canon(io, ro.guard, extra))
    writes = [e for e in it.events if e.kind == "write" and any(x.startswith("param") for x in e.data["locs"])]
    rep.ob(not writes, "result", w, "model and region are not changed", "; ".join(show(e.data["target"]) for e in writes))


def item_of(t, k):
    """Entry k of a dict valued term."""
    if t.op == "ite":
        return T.ite(t.args[0], item_of(t.args[1], k), item_of(t.args[2], k))
    if t.op == "dict":
        for p in t.args:
            p = p if not isinstance(p, T.Term) else p
            if isinstance(p, T.Term) and p.op == "kv" and T.cval(p.args[0]) == k:
                return p.args[1]
    raise Broken(f"reference value has no entry {k}: {show(t)[:80]}")
