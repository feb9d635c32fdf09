"""C01: feasibility."""
from .. import lemma, models, terms as T
from ..interp import Interp
from ..order import Order
from ..project import Broken
from ..proof import Flow, InBounds, bounds_vacuous
from ..report import ev_where, show
from ..values import Rec, Tup, Val
from .common import component_of, method_where

LB, UB, C, R = T.sym("lb"), T.sym("ub"), T.sym("c"), T.sym("r")


def region_value(it, st):
    b = it.construct(it.find_class("Bounds"), [], {"lower": Val(LB), "upper": Val(UB)}, st, None)
    return it.construct(it.find_class("Region"), [], {"center": Val(C), "radius": Val(R), "bounds": b}, st, None)


def region_lemma(ctx, rep):
    """map_from_unit and the region's cube stay inside the bounds."""
    it = Interp(ctx.project, models.bounds_hooks())
    st = lemma.start(it, "tranquilo.region")
    r = region_value(it, st)
    rec = it.resolve(r, st)
    if not isinstance(rec, Rec):
        raise Broken("Region is not a record of its fields")
    v = it.call(it.getattr(r, "map_from_unit", st, None), [Val(T.sym("x"))], {}, st, None)
    t = it.tm(v, st)
    ctx.count(it)
    o = Order(ge=[(C, LB), (UB, LB)], le=[(C, UB), (LB, UB)], nonneg=[R], vacuous=bounds_vacuous(LB, UB))
    w = ctx.project.rel("tranquilo.region")
    ok1 = rep.ob(o.ge(t, LB), "clip", w + ":Region.map_from_unit", "mapped points are not below the lower bounds", show(t))
    ok2 = rep.ob(o.le(t, UB), "clip", w + ":Region.map_from_unit", "mapped points are not above the upper bounds", show(t))
    good = ok1 and ok2
    try:
        cb = it.resolve(it.getattr(r, "_cube_bounds", st, None), st)
    except Exception:
        cb = None
    if isinstance(cb, Rec):
        for k in ("lower", "upper"):
            t = it.tm(cb.fields[k], st)
            good &= rep.ob(o.ge(t, LB) and o.le(t, UB), "clip", w + ":Region",
                           f"{k} corner of the region's cube lies inside the bounds", show(t))
    return good


def has_any_lemma(ctx, rep):
    it = Interp(ctx.project, {})
    st = lemma.start(it, "tranquilo.bounds")
    b = it.construct(it.find_class("Bounds"), [], {"lower": Val(LB), "upper": Val(UB)}, st, None)
    t = T.truth(it.tm(it.getattr(b, "has_any", st, None), st))
    ctx.count(it)
    w = ctx.project.rel("tranquilo.bounds") + ":Bounds"
    for b in (LB, UB):
        fin = T.truth(T.call("numpy.any", T.call("numpy.isfinite", b)))
        # a finite bound of this side forces has_any
        from ..proof import with_fact
        f = with_fact({}, T.cmp("==", b, T.NONE), False)
        hit = False
        for s in T.subterms(t):
            if s.op == "call" and s.args[0] in ("numpy.any", "any", "numpy.isfinite"):
                if any(u is b for u in T.subterms(s)):
                    g = with_fact(f, T.truth(s), True)
                    if T.decide(t, g) is True:
                        hit = True
        rep.ob(hit, "clip", w, f"bounds with a finite {'lower' if b is LB else 'upper'} entry count as bounds", show(t))


def sampler_lemma(ctx, rep, region_ok):
    """Every built-in sampler returns points inside the bounds of its region."""
    reg = component_of(ctx, "get_sampler").registry
    hooks = {**models.region_hooks(), **models.bounds_hooks()}
    good = True
    for n, g in sorted(reg.items()):
        it = Interp(ctx.project, hooks)
        st = lemma.start(it, g.module)
        a = {k: Val(T.sym(k)) for k in lemma.params(g)}
        if "trustregion" not in a:
            raise Broken(f"sampler {n!r} has no parameter trustregion")
        a["trustregion"] = region_value(it, st)
        if "return_info" in a:
            a["return_info"] = Val(T.FALSE)
        v = it.call(g, [], a, st, g.node)
        ctx.count(it)
        flow = Flow(it)
        ib = InBounds(flow, LB, UB, set(), False, region_ok)
        why = []
        ok = ib.ok(it.tm(v, st), why=why)
        good &= rep.ob(ok, "sampler", ctx.where(g.name), f"points of sampler {n!r} lie in the region inside the bounds", "; ".join(why[:2]))
    return good


def check_C01(ctx, rep):
    rep.rule("clip", "points mapped out of the unit region and the region's cube stay within the bounds (order prover)")
    rep.rule("sampler", "built-in samplers only return points of the region they are given")
    rep.rule("evaluated", "every parameter vector that enters the history carries the in-bounds qualifier")
    rep.rule("centre", "every trust region carries the user's bounds and an in-bounds centre")
    rep.rule("solution", "the reported solution carries the in-bounds qualifier")
    rep.rule("calls", "the criterion is called only through the evaluation wrapper")
    rep.assume("start point inside the bounds, lower <= upper, radius >= 0, no NaN")
    rep.assume("the evaluation wrapper passes rows of the history to the criterion (C05, C10)")
    region_ok = region_lemma(ctx, rep)
    has_any_lemma(ctx, rep)
    sampler_ok = sampler_lemma(ctx, rep, region_ok)
    for m in ctx.mains():
        it, st, d = m.it, m.st, m.decider
        lo, up = T.sym("lower_bounds"), T.sym("upper_bounds")
        ib = InBounds(m.flow, lo, up, {T.sym("x")}, sampler_ok, region_ok)
        n = 0
        for e in it.events:
            w = ev_where(ctx, e)
            if e.kind == "add_xs":
                n += 1
                why = []
                rep.ob(ib.ok(e.data["xt"], why=why), "evaluated", w,
                       f"[{d}] points added to the history are inside the bounds", "; ".join(why[:2]))
            elif e.kind == "newregion":
                f = e.data["fields"]
                ok = ib.bounds_term_ok(f["bounds"])
                rep.ob(ok, "centre", w, f"[{d}] trust region carries the user's bounds", show(f["bounds"]))
                why = []
                rep.ob(ib.ok(f["center"], why=why), "centre", w, f"[{d}] centre of the trust region is inside the bounds",
                       "; ".join(why[:2]))
        direct = [e for e in it.events if e.kind == "opaque" and e.data["func"] is not None and "criterion" in str(e.data["func"])]
        rep.ob(not direct, "calls", ev_where(ctx, direct[0]) if direct else ev_where(ctx, m.accepted), f"[{d}] the criterion is called only by the evaluation wrapper")
        if n < 4:
            raise Broken("fewer points enter the history than expected: the analysis lost the sampling code")
        x = m.result_fields.get("solution_x")
        why = []
        rep.ob(x is not None and ib.ok(it.tm(x, st), why=why), "solution", ev_where(ctx, m.accepted),
               f"[{d}] solution is inside the bounds", "; ".join(why[:2]))
