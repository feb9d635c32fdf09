"""C20: built-in samplers return new points of the current trustregion as configured."""
from .. import arrays, lemma, models, terms as T
from ..project import Broken
from ..report import show
from ..values import Val
from .bounds import region_value
from .common import component_of, oracle, same, subject

Y = T.sym("y")


def hooks(found):
    h = {**models.region_hooks(), **models.bounds_hooks()}

    def minimize(interp, st, name, args, kwargs, node):
        fun = args[0] if args else kwargs.get("fun")
        x0 = args[1] if len(args) > 1 else kwargs.get("x0")
        if fun is None or x0 is None:
            raise Broken("minimize without a function or start point")
        b = kwargs.get("bounds", args[7] if len(args) > 7 else Val(T.NONE))
        x0 = interp.tm(x0, st)
        value = interp.tm(interp.call(fun, [Val(Y)], {}, st.copy(), node), st)
        found.append((value, x0, bound_terms(interp.tm(b, st)), T.tand(*[st.pc]) if isinstance(st.pc, T.Term) else st.pc))
        return Val(T.call("minimized", x0))

    h["ext:scipy.optimize.minimize"] = minimize
    return h


def bound_terms(t):
    if t.op == "call" and str(t.args[0]).endswith("optimize.Bounds"):
        a, kw = list(t.args[1]), dict(t.args[2])
        return (a[0] if a else kw.get("lb", T.NONE), a[1] if len(a) > 1 else kw.get("ub", T.NONE))
    return (t, T.NONE)


def units(t):
    """A vector of ones of any length: one."""
    n = arrays.short(t)
    if n in ("ones_like", "ones"):
        return T.ONE
    if n in ("full_like", "full") and len(t.args[1]) == 2:
        return t.args[1][1]
    return t


def simple(t):
    return arrays.rewrite(t)


def check_C20(ctx, rep):
    rep.rule("interior", "random_interior draws uniformly from the cube or from the ball")
    rep.rule("hull", "hull samplers scale draws to the unit hull before mapping them into the trustregion")
    rep.rule("optimal", "optimal_hull keeps its start unless the optimizer improves the Fekete criterion")
    rep.rule("objective", "the optimizer of optimal_hull maximises the criterion of the configuration")
    reg = component_of(ctx, "get_sampler").registry
    want = {"random_interior": ("sample_interior", "interior"), "random_hull": ("sample_hull", "hull"),
            "optimal_hull": ("sample_optimal", "optimal")}
    for name, (ref, rule) in want.items():
        g = reg.get(name)
        if not rep.ob(g is not None, rule, ctx.where("get_sampler"), f"sampler {name!r} is built in", ""):
            continue
        w = ctx.where(g.name)
        got_min, ref_min = [], []

        def make(it, st):
            a = {"trustregion": region_value(it, st)}
            return a
        args = {"return_info": T.FALSE} if "return_info" in lemma.params(g) else {}
        it, st, r = subject(ctx, g, args=args, hooks=hooks(got_min), make=make)
        _, _, o = oracle(ctx, ref, {}, hooks=hooks(ref_min), make=make)
        t = it.tm(r, st)
        ps = lemma.params(g)
        if name == "optimal_hull":
            rep.ob(len(got_min) >= 1, "objective", w, "an optimizer is started", f"{len(got_min)} optimizers")
        for what, sub in cases(ps, [t, o] + [x for m in got_min + ref_min for x in m[:2]]):
            def at(x):
                return simple(T.subst(T.subst(x, sub), sub))
            same(rep, rule, w, f"points of sampler {name!r}{what}", at(t), at(o))
            for v, x0, b, pc in got_min:
                if T.subst(pc, sub) is T.FALSE:
                    continue
                same(rep, "objective", w, f"objective of the optimizer{what}", at(v), at(ref_min[0][0]))
                same(rep, "objective", w, f"start of the optimizer{what}", at(x0), at(ref_min[0][1]))
                lo, up = (arrays.rewrite(T.subst(x, sub), extra=units) for x in b)
                rep.ob(lo is T.const(-1) and up is T.ONE, "objective", w, f"the optimizer searches the unit cube{what}", show(lo) + ", " + show(up))


def cases(params, ts):
    """Shapes of the region and configurations of the sampler."""
    shapes = {u for t in ts for u in T.subterms(t) if u.op == "call" and u.args[0] == "region.shape"}
    if len(shapes) > 1:
        raise Broken("several regions in a sampler")
    for s in ("sphere", "cube"):
        for d in (None, "normal", "uniform") if "distribution" in params else (0,):
            for c in (None, "distance", "determinant") if "criterion" in params else (0,):
                sub = {u: T.const(s) for u in shapes}
                what = [s]
                if d != 0:
                    sub[T.sym("distribution")] = T.const(d)
                    what.append(f"distribution {d}")
                if c != 0:
                    sub[T.sym("criterion")] = T.const(c)
                    what.append(f"criterion {c}")
                yield " (" + ", ".join(what) + ")", sub
