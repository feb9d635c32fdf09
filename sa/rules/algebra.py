"""C21: models predict, move, add and aggregate by their definitions (index notation)."""
from .. import lemma, models, terms as T
from .. import tensor as X
from ..project import Broken
from ..report import show
from ..values import Rec, Val
from .common import region_rec, subject, sym_rec

S = T.sym


def model_fields(cls, prefix, square=True, scalar_scale=False):
    """Leaf tensors of a model."""
    vec = cls == "VectorModel"
    r = ("r",) if vec else ()
    out = {
        ("intercepts" if vec else "intercept"): r,
        "linear_terms": r + ("n",),
        "scale": () if scalar_scale else ("n",),
        "shift": ("n",),
    }
    if square:
        out["square_terms"] = r + ("n", "n")
        k = len(r)
        X.SYMMETRIC[f"{prefix}.square_terms"] = (k, k + 1)
    return {k: (S(f"{prefix}.{k}"), v) for k, v in out.items()}


def reader(fields, extra=None):
    shapes = {t: d for t, d in fields.values()}
    for k, v in (extra or {}).items():
        shapes[k if isinstance(k, T.Term) else S(k)] = v
    return X.Reader(shapes)


def make_model(cls, prefix, square):
    def make(it, st):
        return sym_rec(it, cls, prefix, None if square else {"square_terms": Val(T.NONE)})
    return make


def formula(rd, f, u, vec):
    """Definition of a prediction at the unit point u: a + g u + u H u / 2."""
    a, g, h = f
    out = X.add(a, X.contract(X.mul(g, u), len(g.dims) - 1))
    if h is not None:
        n = len(h.dims)
        q = X.contract(X.contract(X.mul(X.mul(h, u), X.expand(u, 1)), n - 1), n - 2)
        out = X.add(out, X.scale(q, X.Fraction(1, 2)))
    return out


def parts(it, st, rd, rec):
    """(intercept, linear, square or None, scale, shift) of a model value."""
    rec = it.resolve(rec, st)
    if not isinstance(rec, Rec):
        raise X.Unknown("not a model")
    g = {k: it.tm(v, st) for k, v in rec.fields.items()}
    ic = "intercepts" if "intercepts" in g else "intercept"
    sq = decide(rd, g["square_terms"])
    return (rd(g[ic]), rd(g["linear_terms"]), None if sq is T.NONE else rd(sq)), rd(g["scale"]), rd(g["shift"])


def decide(rd, t):
    """Resolve conditions that shapes decide."""
    while t.op == "ite":
        if rd.case is not X.CASE:
            rd.case, rd.memo = X.CASE, {}
        c = rd.known(t.args[0])
        if c is None:
            if T.NONE in (t.args[1], t.args[2]):
                raise X.Undecided(rd.open(t.args[0]))
            return t
        t = t.args[1] if c else t.args[2]
    return t


def tensor_ob(rep, rule, w, text, f):
    """Obligation: f() returns (left, right) tensors that must be equal."""
    try:
        cases = X.by_cases(f)
    except X.Unknown as e:
        raise Broken(f"{w}: {text}: not in the fragment: {e}")
    bad = [(c, a, b) for c, (a, b) in cases if a != b]
    why = ""
    if bad:
        c, a, b = bad[0]
        why = f"{a.show()[:250]}  but expected  {b.show()[:250]}" + "".join(f", if {'' if v else 'not '}{show(k)[:80]}" for k, v in c)
    rep.ob(not bad, rule, w, text, why)


def wh(ctx, it, name, module=None):
    f = it.find_func(name, module) if module else it.find_func(name)
    return f"{ctx.project.rel(f.module)}:{f.name}"


def check_C21(ctx, rep):
    rep.rule("predict", "a prediction is a + g x + x H x / 2 for one or many points")
    rep.rule("move", "a moved model predicts the same at the same point and carries the scale and shift of its region")
    rep.rule("add", "a sum of models predicts the sum; models of different type or frame are refused")
    rep.rule("aggregate", "the scalar model is the sum, the square sum or the first entry of the vector model")
    rep.rule("fit", "the fitted model carries the frame of its region and adds back what was subtracted")
    for cls, name in (("VectorModel", "_predict_vector"), ("ScalarModel", "_predict_scalar")):
        vec = cls == "VectorModel"
        for square in (True, False):
            for xd in (("n",), ("m", "n")):
                fs = model_fields(cls, "m", square)
                it, st, r = predict_call(ctx, cls, square)
                w = f"{ctx.project.rel(it.find_class(cls).module)}:{cls}.predict"
                rd = reader(fs, {"x": xd})

                def f(it=it, st=st, r=r, rd=rd, xd=xd, vec=vec, square=square, fs=fs):
                    got = rd(decide(rd, it.tm(r, st)))
                    ab = (rd(fs["intercepts" if vec else "intercept"][0]), rd(fs["linear_terms"][0]), rd(fs["square_terms"][0]) if square else None)
                    if len(xd) == 1:
                        return got, formula(rd, ab, rd(S("x")), vec)
                    return got, formula_many(rd, ab, rd(S("x")), vec)
                tensor_ob(rep, "predict", w, f"prediction for {len(xd)}-dimensional input, {'with' if square else 'without'} square terms", f)
    check_move(ctx, rep)
    check_add(ctx, rep)
    check_aggregate(ctx, rep)
    check_fit(ctx, rep)
    rep.assume("Square terms of models are symmetric matrices.")
    rep.assume("Real arithmetic: rounding is not considered.")


def formula_many(rd, ab, x, vec):
    a, g, h = ab
    if vec:
        out = X.add(a, X.einsum("ri,si->sr", [g, x]))
        if h is not None:
            out = X.add(out, X.scale(X.einsum("rij,si,sj->sr", [h, x, x]), X.Fraction(1, 2)))
    else:
        out = X.add(a, X.einsum("i,si->s", [g, x]))
        if h is not None:
            out = X.add(out, X.scale(X.einsum("ij,si,sj->s", [h, x, x]), X.Fraction(1, 2)))
    return out


def predict_call(ctx, cls, square):
    """Value of model.predict(x)."""
    from ..interp import Interp
    it = Interp(ctx.project, {})
    ci = it.find_class(cls)
    st = lemma.start(it, ci.module)
    rec = make_model(cls, "m", square)(it, st)
    meth = it.getattr(rec, "predict", st, None)
    r = it.call(meth, [Val(S("x"))], {}, st, None)
    ctx.count(it)
    return it, st, it.resolve(r, st)


NEW = "region"


def region_leaves(it, st, new_scalar):
    """Terms of centre and radius of a region and their shapes."""
    r = region_rec(it, st, NEW)
    c = it.tm(it.getattr(r, "effective_center", st, None), st)
    s = it.tm(it.getattr(r, "effective_radius", st, None), st)
    return {"center": (c, ("n",)), "radius": (s, () if new_scalar else ("n",)),
            "raw center": (S(NEW + ".center"), ("n",)), "raw radius": (S(NEW + ".radius"), ())}


def check_move(ctx, rep):
    for cls in ("VectorModel", "ScalarModel"):
        vec = cls == "VectorModel"
        for square in (True, False):
            fs0 = model_fields(cls, "m", square)
            keep = {}

            def make(it, st):
                keep["it"] = it
                return {"model": make_model(cls, "m", square)(it, st), "new_region": region_rec(it, st, NEW)}
            it, st, r = subject(ctx, "move_model", make=make, hooks={**models.region_hooks(), **models.bounds_hooks()})
            w = wh(ctx, it, "move_model")
            for old_scalar in (True, False):
                for new_scalar in (True, False):
                    fs = model_fields(cls, "m", square, old_scalar)
                    rg = region_leaves(it, st, new_scalar)
                    rd = X.Reader({**{t: d for t, d in fs.values()}, **{t: d for t, d in rg.values()}})
                    kind = f"{'vector' if vec else 'scalar'} model, {'with' if square else 'without'} square terms, {'one' if old_scalar else 'side specific'} to {'one' if new_scalar else 'side specific'} radius"

                    def ref(rd=rd, fs=fs, rg=rg):
                        u = X.leaf("u", ("n",))
                        x = X.add(rd(rg["center"][0]), X.mul(rd(rg["radius"][0]), u))
                        v = X.mul(X.add(x, X.scale(rd(fs["shift"][0]), -1)), X.inverse(rd(fs["scale"][0])))
                        old = (rd(fs["intercepts" if vec else "intercept"][0]), rd(fs["linear_terms"][0]), rd(fs["square_terms"][0]) if square else None)
                        return formula(rd, old, v, vec)

                    def got(rd=rd):
                        return formula(rd, parts(it, st, rd, r)[0], X.leaf("u", ("n",)), vec)
                    tensor_ob(rep, "move", w, f"same prediction after moving: {kind}", lambda: (got(), ref()))
                    tensor_ob(rep, "move", w, f"shift of the new region: {kind}", lambda: (parts(it, st, rd, r)[2], rd(rg["center"][0])))
                    tensor_ob(rep, "move", w, f"scale of the new region: {kind}", lambda: (full(parts(it, st, rd, r)[1]), full(rd(rg["radius"][0]))))


def full(t):
    """A radius for all sides or one per side."""
    return X.add(t, X.Tn(("n",), {}))


def check_add(ctx, rep):
    for c1 in ("VectorModel", "ScalarModel"):
        for c2 in ("VectorModel", "ScalarModel"):
            for square in (True, False):
                def make(it, st):
                    return {"model1": make_model(c1, "m", square)(it, st), "model2": make_model(c2, "k", square)(it, st)}
                it, st, r = subject(ctx, "add_models", make=make)
                w = wh(ctx, it, "add_models")
                raises = T.FALSE
                for e in it.events:
                    if e.kind == "raise":
                        raises = T.tor(raises, e.guard)
                what = f"{c1} and {c2}, {'with' if square else 'without'} square terms"
                if c1 != c2:
                    rep.ob(raises is T.TRUE, "add", w, f"models of different type are refused: {what}", show(raises))
                    continue
                vec = c1 == "VectorModel"
                raises = T.subst(raises, {T.cmp("==", T.NONE, S(f"{p}.square_terms")): T.FALSE for p in "mk"})
                close = [u for u in T.subterms(raises) if u.op == "call" and str(u.args[0]).split(".")[-1] in ("allclose", "array_equal", "isclose")]
                pairs = {frozenset(u.args[1][:2]) for u in close}
                ok = {frozenset((S("m.shift"), S("k.shift"))), frozenset((S("m.scale"), S("k.scale")))} <= pairs
                for u in close:
                    if T.subst(raises, {u: T.FALSE, **{v: T.TRUE for v in close if v is not u}}) is not T.TRUE:
                        ok = False
                if T.subst(raises, {u: T.TRUE for u in close}) is not T.FALSE:
                    ok = False
                rep.ob(ok, "add", w, f"models are refused exactly if scale or shift differ: {what}", show(raises))
                fm, fk = model_fields(c1, "m", square), model_fields(c1, "k", square)
                rd = X.Reader({t: d for f in (fm, fk) for t, d in f.values()})
                if it.resolve(r, st) is None or not isinstance(it.resolve(r, st), Rec):
                    raise Broken("add_models does not return a model")
                ic = "intercepts" if vec else "intercept"

                def ref(rd=rd):
                    out = []
                    for f in (fm, fk):
                        out.append(formula(rd, (rd(f[ic][0]), rd(f["linear_terms"][0]), rd(f["square_terms"][0]) if square else None), X.leaf("u", ("n",)), vec))
                    return X.add(*out)
                tensor_ob(rep, "add", w, f"prediction of the sum: {what}", lambda: (formula(rd, parts(it, st, rd, r)[0], X.leaf("u", ("n",)), vec), ref()))
                mixed(ctx, rep, c1, square, w)
                for i, k in ((1, "scale"), (2, "shift")):
                    got = parts(it, st, rd, r)[i]
                    rep.ob(got in (rd(fm[k][0]), rd(fk[k][0])), "add", w, f"{k} of the sum: {what}", got.show())


def mixed(ctx, rep, cls, first, w):
    """One model with and one without square terms: refused, or the sum is right."""
    def make(it, st):
        return {"model1": make_model(cls, "m", first)(it, st), "model2": make_model(cls, "k", not first)(it, st)}
    it, st, r = subject(ctx, "add_models", make=make)
    raises = T.FALSE
    for e in it.events:
        if e.kind == "raise":
            raises = T.tor(raises, e.guard)
    raises = T.subst(raises, {T.cmp("==", T.NONE, S(f"{p}.square_terms")): T.FALSE for p in "mk"})
    raises = T.subst(raises, {u: T.TRUE for u in T.subterms(raises) if u.op == "call" and str(u.args[0]).split(".")[-1] in ("allclose", "array_equal", "isclose")})
    what = f"{cls} {'with' if first else 'without'} and {cls} {'without' if first else 'with'} square terms"
    if raises is T.TRUE:
        rep.ob(True, "add", w, f"refused: {what}")
        return
    vec = cls == "VectorModel"
    ic = "intercepts" if vec else "intercept"
    fs = [(model_fields(cls, "m", first), first), (model_fields(cls, "k", not first), not first)]
    rd = X.Reader({t: d for f, _ in fs for t, d in f.values()})

    def ref():
        return X.add(*[formula(rd, (rd(f[ic][0]), rd(f["linear_terms"][0]), rd(f["square_terms"][0]) if q else None), X.leaf("u", ("n",)), vec) for f, q in fs])
    tensor_ob(rep, "add", w, f"prediction of the sum: {what}", lambda: (formula(rd, parts(it, st, rd, r)[0], X.leaf("u", ("n",)), vec), ref()))


def check_aggregate(ctx, rep):
    cases = {"identity": True, "sum": True, "least_squares_linear": False, "information_equality_linear": False}
    for name, square in cases.items():
        it, st, f, r = aggregator(ctx, name, square)
        w = f"{ctx.project.rel(f.module)}:get_aggregator"
        rv = "1" if name == "identity" else "r"
        fs = {k: (t, tuple(1 if x == "r" and rv == "1" else x for x in d)) for k, (t, d) in model_fields("VectorModel", "m", square).items()}
        rd = X.Reader({t: d for t, d in fs.values()})
        u = X.leaf("u", ("n",))

        def ref():
            a, g = rd(fs["intercepts"][0]), rd(fs["linear_terms"][0])
            p = formula(rd, (a, g, rd(fs["square_terms"][0]) if square else None), u, True)
            if name == "identity":
                return X.squeeze(p)
            if name == "sum":
                return X.total(p)
            if name == "least_squares_linear":
                return X.total(X.mul(p, p))
            fisher = X.einsum("ri,rj->ij", [g, g])
            return formula(rd, (X.total(a), X.contract(g, 0), X.scale(fisher, X.Fraction(-1, 2))), u, False)

        def got():
            (a, g, h), _, _ = parts(it, st, rd, r)
            return formula(rd, (X.squeeze(a), g, h), u, False)
        tensor_ob(rep, "aggregate", w, f"{name}: prediction of the aggregated model", lambda: (got(), ref()))
        for i, k in ((1, "scale"), (2, "shift")):
            tensor_ob(rep, "aggregate", w, f"{name}: {k} is that of the vector model", lambda: (parts(it, st, rd, r)[i], rd(fs[k][0])))
    it, st, f, r = aggregator(ctx, "identity", False)
    (a, g, h), _, _ = parts(it, st, X.Reader({t: tuple(1 if x == "r" else x for x in d) for t, d in model_fields("VectorModel", "m", False).values()}), r)
    rep.ob(h is None or not h.poly, "aggregate", f"{ctx.project.rel(f.module)}:get_aggregator", "identity: a linear model stays linear")


def aggregator(ctx, name, square):
    from ..interp import Interp
    it = Interp(ctx.project, {})
    f = it.find_func("get_aggregator")
    st = lemma.start(it, f.module)
    ps = lemma.params(f)
    agg = it.call(f, [], {ps[0]: Val(T.const(name))}, st, f.node)
    m = make_model("VectorModel", "m", square)(it, st)
    r = it.call(agg, [], {"vector_model": m}, st, f.node)
    ctx.count(it)
    return it, st, f, it.resolve(r, st)


# ------------------------------------------------------------------ fitted models
def fit_flow(ctx, model_type, residualize):
    """The fit function applied to arbitrary data, with an unknown fit method."""
    from ..interp import Interp
    from ..values import Partial
    it = Interp(ctx.project, {**models.region_hooks(), **models.bounds_hooks(),
                              "tranquilo.get_component.get_component": models.component})
    it.components, it.added, it.versions = [], {}, {}
    moves, calls = [], []

    def move(interp, st, f, a, k, n):
        b = interp.bind(f, a, k, st, n)
        vals = {x: interp.resolve(y, st) for x, y in b.items()}
        moves.append(vals)
        fields = {} if model_type == "quadratic" else {"square_terms": Val(T.NONE)}
        for v in vals.values():
            if isinstance(v, Rec) and v.cls.name == "Region":
                fields["shift"] = interp.getattr(v, "effective_center", st, n)
                fields["scale"] = interp.getattr(v, "effective_radius", st, n)
        return sym_rec(interp, "VectorModel", "moved", fields)

    def pred(interp, st, f, a, k, n):
        b = list(interp.bind(f, a, k, st, n).values())
        rec = interp.resolve(b[0], st)
        who = interp.tm(rec.fields["linear_terms"], st) if isinstance(rec, Rec) else interp.tm(rec, st)
        return Val(T.call("predict", who, interp.tm(b[1], st)), frozenset({interp.newloc("new")}))
    mv = it.find_func("move_model")
    it.hooks[mv.qual] = move
    it.hooks["tranquilo.models.VectorModel.predict"] = pred

    def comp(interp, c, args, kwargs, s, node):
        calls.append(([interp.tm(v, s) for v in args], {k: interp.tm(v, s) for k, v in kwargs.items()}))
        t = S("coef")
        return Val(t, frozenset({interp.newloc("coef")}))
    it.comp_call = comp
    f = it.find_func("get_fitter")
    st = lemma.start(it, f.module)
    from .fit import handlers
    name, hf = handlers(ctx)[0][:2]

    def clip(interp, s, f_, args, kwargs, node):
        b = interp.bind(f_, args, kwargs, s, node)
        return Val(T.call("clipped", interp.tm(next(iter(b.values())), s)), frozenset({interp.newloc("clip")}))
    it.hooks[hf.qual] = clip
    a = {k: Val(S(k)) for k in lemma.params(f)}
    a.update(infinity_handling=Val(T.const(name)), residualize=Val(T.TRUE if residualize else T.FALSE), model_type=Val(T.const(model_type)))
    r = it.resolve(it.call(f, [], a, st, f.node), st)
    region = region_rec(it, st, NEW)
    old = sym_rec(it, "VectorModel", "old")
    out = it.call(r, [Val(S("x"), frozenset({"param:x"})), Val(S("y"), frozenset({"param:y"}))],
                  {"region": region, "old_model": old, "weights": Val(S("weights"))}, st, f.node)
    ctx.count(it)
    unit = it.tm(it.call(it.getattr(region, "map_to_unit", st, None), [Val(S("x"))], {}, st, None), st)
    frame = [it.tm(it.getattr(region, k, st, None), st) for k in ("effective_center", "effective_radius")]
    return it, st, f, it.resolve(out, st), moves, calls, unit, frame, region, old


def columns(t, c, n):
    """(first, last) of the columns of c that the term takes, or None."""
    while t.op == "call" and str(t.args[0]).split(".")[-1] in ("ravel", "flatten", "squeeze", "reshape", "array", "asarray", "atleast_2d"):
        t = t.args[1][0]
    if t is c:
        return T.ZERO, T.NONE
    if t.op != "item":
        return None
    b, k = t.args
    if b.op == "call" and str(b.args[0]).split(".")[-1] == "split" and b.args[1][0] is c and T.is_finite_num(k):
        kw = dict(b.args[2])
        cut = b.args[1][1] if len(b.args[1]) > 1 else kw.get("indices_or_sections")
        ax = b.args[1][2] if len(b.args[1]) > 2 else kw.get("axis", T.ZERO)
        if cut is None or cut.op not in ("tuple", "list") or not (T.is_finite_num(ax) and ax.args[1] in (1, -1)):
            return None
        cuts = [T.ZERO] + list(cut.args) + [T.NONE]
        i = int(k.args[1])
        return (cuts[i], cuts[i + 1]) if 0 <= i < len(cuts) - 1 else None
    if b is c and k.op == "tuple" and len(k.args) == 2 and k.args[0].op in ("slice", "ellipsis"):
        j = k.args[1]
        if j.op == "slice":
            return (T.ZERO if j.args[0] is T.NONE else j.args[0]), j.args[1]
        return j, T.add(j, T.ONE)
    return None


def is_columns(t, c, n, lo, hi):
    r = columns(t, c, n)
    return r is not None and all(a is b or (a is not T.NONE and b is not T.NONE and T.alg_equal(a, b)) for a, b in zip(r, (lo, hi)))


def check_fit(ctx, rep):
    for model_type in ("linear", "quadratic"):
        for res in (True, False):
            it, st, f, r, moves, calls, unit, frame, region, old = fit_flow(ctx, model_type, res)
            w = f"{ctx.project.rel(f.module)}:{f.name}"
            what = f"{model_type} model{', fitted to residuals' if res else ''}"
            if not isinstance(r, Rec):
                raise Broken("the fit function does not return a model")
            g = {k: it.tm(v, st) for k, v in r.fields.items()}
            rep.ob(g["shift"] is frame[0] and g["scale"] is frame[1], "fit", w, f"scale and shift are those of the region: {what}", f"{show(g['shift'])} {show(g['scale'])}")
            rep.ob(len(calls) == 1, "fit", w, f"the fit method is called once: {what}", str(len(calls)))
            if len(calls) != 1:
                continue
            pos, kw = calls[0]
            kw = {**dict(zip(("x", "y", "model_type"), pos)), **kw}
            rep.ob(kw.get("x") is unit, "fit", w, f"the fit method gets the points in unit coordinates: {what}", show(kw.get("x", T.NONE)))
            cl = T.call("clipped", S("y"))
            yy = kw.get("y", T.NONE)
            if not res:
                rep.ob(yy is cl, "fit", w, f"the fit method gets the handled values: {what}", show(yy))
            else:
                d = T.sub(cl, yy)
                while d.op == "call" and str(d.args[0]).split(".")[-1] == "reshape":
                    d = d.args[1][0]
                rep.ob(d is T.call("predict", S("moved.linear_terms"), unit), "fit", w, f"the fit method gets the residuals of the old model: {what}", show(yy))
                ok = bool(moves) and all(_same_rec(it, st, m, old, region) for m in moves)
                rep.ob(ok, "fit", w, f"the old model is moved to the region: {what}")
            rep.ob(kw.get("model_type") is T.const(model_type), "fit", w, f"the fit method gets the type of the model: {what}")
            n = T.mk("item", T.mk("attr", S("x"), "shape"), T.ONE)
            c = S("coef")
            base = {k: T.sub(g[k], S(f"moved.{k}")) if res else g[k] for k in ("intercepts", "linear_terms")}
            rep.ob(is_columns(base["intercepts"], c, n, T.ZERO, T.ONE), "fit", w, f"intercepts are the first coefficients{' plus those of the old model' if res else ''}: {what}", show(g["intercepts"]))
            rep.ob(is_columns(base["linear_terms"], c, n, T.ONE, T.add(n, T.ONE)), "fit", w, f"linear terms are the next coefficients{' plus those of the old model' if res else ''}: {what}", show(g["linear_terms"]))
            sq = g["square_terms"]
            if model_type == "linear":
                rep.ob(sq is T.NONE, "fit", w, f"no square terms: {what}", show(sq))
            else:
                if res:
                    sq = T.subst(sq, {T.cmp("==", T.NONE, S("moved.square_terms")): T.FALSE})
                    sq = T.sub(sq, S("moved.square_terms"))
                clean = not any(u.op == "sym" and u.args[0] not in ("coef", "x", "y") and not str(u.args[0]).startswith("region") for u in T.subterms(sq))
                used = [u for u in T.subterms(sq) if is_columns(u, c, n, T.add(n, T.ONE), T.NONE)]
                rest = T.subst(sq, {u: S("squares") for u in used})
                rep.ob(bool(used) and clean and not any(u is c for u in T.subterms(rest)), "fit", w, f"square terms are the last coefficients{' plus those of the old model' if res else ''}: {what}", show(g["square_terms"]))


def _same_rec(it, st, m, old, region):
    vals = list(m.values())
    return any(isinstance(v, Rec) and it.tm(v, st) is it.tm(old, st) for v in vals) and any(isinstance(v, Rec) and it.tm(v, st) is it.tm(region, st) for v in vals)
