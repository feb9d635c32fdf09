"""C27: fallback solvers of the subproblem."""
from .. import eqv, lemma, tensor as X, terms as T
from ..interp import Interp, elem
from ..proof import Flow
from ..report import show
from ..values import DictS, Hooked, Rec, Val
from .algebra import model_fields, reader
from .common import components_of, deep_same, sym_rec

S = T.sym
V, X0 = S("v"), S("x_candidate")
RADIUS = S("|v|")
BOUNDED = {"L-BFGS-B", "SLSQP", "trust-constr", "TNC", "Powell", "Nelder-Mead", "COBYLA", "COBYQA"}
GENERAL = {"SLSQP", "trust-constr", "COBYLA", "COBYQA"}


def short(t):
    return str(t.args[0]).split(".")[-1] if t.op == "call" else ""


class Fallback:
    def __init__(self, ctx, rep):
        self.ctx, self.rep, self.open = ctx, rep, []

    def ob(self, ok, rule, w, text, got):
        """ok is None: not decided."""
        if ok is None:
            self.open.append(f"{w}: {text}: {got[:120]}")
        else:
            self.rep.ob(ok, rule, w, text, got if not ok else "")


class Run:
    """One abstract run of a solver: what it hands to the minimiser and what it returns."""

    def __init__(self, fb, f, hooks=None):
        ctx = fb.ctx
        self.fb, self.f, self.calls = fb, f, []
        it = self.it = Interp(ctx.project, {})
        it.hooks["ext:scipy.optimize.minimize"] = self.minimize
        it.hooks["ext:scipy.optimize.NonlinearConstraint"] = self.constraint
        it.hooks.update(hooks(self) if hooks else {})
        self.constraints = {}
        self.st = lemma.start(it, f.module)
        X.SYMMETRIC["m.square_terms"] = (0, 1)
        self.fields = model_fields("ScalarModel", "m", True)
        self.model = sym_rec(it, "ScalarModel", "m")
        ps = lemma.params(f)
        args = {}
        for p in ps:
            if p == "model":
                args[p] = self.model
            elif p == "x_candidate":
                args[p] = Val(X0)
        self.result = it.resolve(it.call(f, [], args, self.st, f.node), self.st)
        ctx.count(it)
        self.w = f"{ctx.project.rel(f.module)}:{f.name}"

    def minimize(self, it, st, name, args, kwargs, node):
        names = ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints"]
        d = {**dict(zip(names, args)), **kwargs}
        self.calls.append((d, st.copy()))
        return Val(T.call("minimum", T.const(len(self.calls))))

    def constraint(self, it, st, name, args, kwargs, node):
        d = {**dict(zip(["fun", "lb", "ub", "jac"], args)), **kwargs}
        t = T.call("constraint", T.const(len(self.constraints)))
        self.constraints[t] = (d, st.copy())
        return Val(t)

    def field(self, k):
        r = self.result
        if isinstance(r, Rec):
            v = r.fields.get(k)
            return self.it.tm(v, self.st) if v is not None else None
        o = self.it.hobj(self.st, r) if hasattr(r, "loc") else None
        if isinstance(o, DictS):
            for p in o.parts:
                if p[0] == "kv" and p[1] is T.const(k):
                    return self.it.tm(p[2], self.st)
        return None

    def apply(self, fun, st, extra=()):
        st = st.copy()
        return self.it.tm(self.it.resolve(self.it.call(fun, [Val(V)] + list(extra), {}, st, self.f.node), st), st)

    def predict(self, point):
        """The prediction of the model at a point."""
        st = self.st.copy()
        it = self.it
        return it.tm(it.resolve(it.call(it.getattr(self.model, "predict", st, None), [Val(point)], {}, st, self.f.node), st), st)


# -------------------------------------------------------------- normal forms
def units(t):
    """Vectors of equal entries as numbers."""
    m = {}
    for u in T.subterms(t):
        n = short(u)
        if n in ("ones", "ones_like"):
            m[u] = T.ONE
        elif n in ("zeros", "zeros_like"):
            m[u] = T.ZERO
        elif n in ("full", "full_like") and len(u.args[1]) > 1:
            m[u] = u.args[1][1]
        elif n == "repeat" and len(u.args[1]) == 2:
            m[u] = u.args[1][0]
        elif n == "len" and u.args[1][0] in (X0, V):
            m[u] = S("n")
        elif u.op == "item" and u.args[1] is T.ZERO and u.args[0].op == "attr" and u.args[0].args[1] == "shape" and u.args[0].args[0] in (X0, V):
            m[u] = S("n")
        elif u.op == "attr" and u.args[1] == "size" and u.args[0] in (X0, V):
            m[u] = S("n")
    t2 = T.subst(t, m) if m else t
    return units(t2) if t2 is not t else t


def length_of(t, x, r):
    """Euclidean norms of x as r."""
    m = {}
    for u in T.subterms(t):
        if short(u) == "norm" and u.args[1][0] is x and len(u.args[1]) == 1 and dict(u.args[2]).get("ord", T.const(2)) in (T.NONE, T.const(2)):
            m[u] = r
        elif short(u) in ("matmul", "dot", "inner") and tuple(u.args[1]) == (x, x):
            m[u] = T.power(r, T.const(2))
        elif short(u) == "sum" and u.args[1][0] is T.power(x, T.const(2)):
            m[u] = T.power(r, T.const(2))
    t = T.subst(t, m) if m else t
    m = {u: r for u in T.subterms(t) if short(u) == "sqrt" and u.args[1][0] is T.power(r, T.const(2))}
    return T.subst(t, m) if m else t


def agree(got, want, clean=None):
    try:
        ok, why = eqv.equal(got, want, same=deep_same)
    except eqv.TooBig:
        return None, "too many cases"
    return ok, why or ""


# ------------------------------------------------------------------- pieces
def quadratic(run, text, got, gradient):
    """The term is the value (gradient) of the model at v."""
    fb = run.fb
    rd = reader(run.fields, {"v": ("n",)})
    try:
        a, g, h = (rd(run.fields[k][0]) for k in ("intercept", "linear_terms", "square_terms"))
        v = rd(V)
        if gradient:
            want = X.add(g, X.einsum("ij,j->i", [h, v]))
        else:
            want = X.add(X.add(a, X.einsum("i,i->", [g, v])), X.scale(X.einsum("ij,i,j->", [h, v, v]), X.Fraction(1, 2)))
        t = rd(got)
        if not gradient and t.dims != want.dims and all(not d for d in (t.dims, want.dims)):
            t = want
    except X.Unknown as e:
        fb.ob(None, "objective", run.w, text, str(e))
        return
    if not gradient:
        # a constant does not matter
        d = X.add(t, X.scale(want, -1))
        names = {n for mono in d.poly for n in str(mono).split("'") if n == "v"}
        fb.ob(not names or t == want, "objective", run.w, text, f"{t.show()[:200]}  but expected  {want.show()[:200]}")
        return
    fb.ob(t == want, "objective", run.w, text, f"{t.show()[:200]}  but expected  {want.show()[:200]}")


def cube(run, d, st, radius):
    """Bounds of the minimiser."""
    fb, it = run.fb, run.it
    b = d.get("bounds")
    t = it.tm(b, st) if b is not None else T.NONE
    if t is T.NONE:
        fb.ob(False, "bounds", run.w, "the minimiser is bounded", "no bounds")
        return
    lo = hi = None
    if t.op == "call" and str(t.args[0]).endswith("Bounds"):
        a, kw = list(t.args[1]), dict(t.args[2])
        lo, hi = (a[0] if a else kw.get("lb", T.NONE)), (a[1] if len(a) > 1 else kw.get("ub", T.NONE))
    if lo is None:
        fb.ob(None, "bounds", run.w, "bounds of the minimiser", show(t))
        return
    for x, want, n in ((lo, T.neg(radius), "lower"), (hi, radius, "upper")):
        g = units(x)
        fb.ob(T.alg_equal(g, want), "bounds", run.w, f"{n} bounds of the minimiser", f"{show(g)}  but expected  {show(want)}")


def method(run, d, st, allowed, text):
    m = run.it.tm(d["method"], st) if "method" in d else T.NONE
    if m is T.NONE:
        return
    ok = None
    if T.is_const(m) and isinstance(T.cval(m), str):
        ok = T.cval(m).lower() in {a.lower() for a in allowed}
    run.fb.ob(ok, "bounds", run.w, text, show(m))


def common(run, radius):
    """Start, bounds and method; the only call of the minimiser or None."""
    fb, it = run.fb, run.it
    if len(run.calls) != 1:
        fb.open.append(f"{run.w}: {len(run.calls)} calls of the minimiser")
        return None
    d, st = run.calls[0]
    x0 = it.tm(d["x0"], st) if "x0" in d else T.NONE
    fb.ob(x0 is X0, "start", run.w, "the search starts at the candidate", show(x0))
    cube(run, d, st, radius)
    method(run, d, st, BOUNDED, "the method respects bounds")
    a = it.tm(d["args"], st) if "args" in d else T.NONE
    if a not in (T.NONE, T.mk("tuple")):
        fb.open.append(f"{run.w}: objective with further arguments")
        return None
    return d, st


def returned(run, project=False):
    fb = run.fb
    got = run.field("x")
    x = T.mk("attr", T.call("minimum", T.ONE), "x")
    crit = run.field("criterion")
    if got is None:
        fb.open.append(f"{run.w}: the result has no point")
        return
    if not project:
        fb.ob(got is x, "result", run.w, "the point where the minimiser stopped is returned", show(got))
    else:
        r = S("|x|")
        want = T.ite(T.cmp("<=", r, T.ONE), x, T.mul(x, T.power(r, T.const(-1))))
        ok, why = agree(length_of(got, x, r), want)
        fb.ob(ok, "result", run.w, "the projection of the point where the minimiser stopped is returned", why)
    if crit is not None and (crit.op == "attr" and crit.args[0] is x.args[0]):
        fb.ob(crit.args[1] == "fun", "result", run.w, "the value where the minimiser stopped is returned", show(crit))
    elif crit is not None:
        fb.open.append(f"{run.w}: value of the result: {show(crit)[:80]}")


def objective(run, d, st):
    fb = run.fb
    quadratic(run, "the objective is the model's value", run.apply(d["fun"], st), False)
    j = d.get("jac")
    if j is not None:
        t = run.it.resolve(j, st)
        if isinstance(t, Val) and T.is_const(t.term):
            if t.term is not T.NONE:
                fb.open.append(f"{run.w}: gradient {show(t.term)}")
        else:
            quadratic(run, "the gradient is the derivative of the model's value", run.apply(j, st), True)


def check_cube(fb, f, radius):
    run = Run(fb, f)
    c = common(run, radius)
    if c:
        objective(run, *c)
        returned(run)


def check_norm(fb, f):
    run = Run(fb, f)
    c = common(run, T.ONE)
    if not c:
        return
    d, st = c
    objective(run, d, st)
    returned(run)
    method(run, d, st, GENERAL, "the method respects constraints")
    if "constraints" not in d:
        fb.ob(False, "constraint", run.w, "the norm is constrained", "no constraint")
        return
    t = run.it.tm(d["constraints"], st)
    while t.op in ("list", "tuple") and len(t.args) == 1:
        t = t.args[0]
    if t not in run.constraints:
        fb.ob(None, "constraint", run.w, "constraint", show(t))
        return
    k, s = run.constraints[t]
    g = length_of(run.apply(k["fun"], s), V, RADIUS)
    p = {T.power(RADIUS, T.const(2)): 2, RADIUS: 1}.get(g)
    if p is None and any(u is RADIUS or u is V for u in T.subterms(g)) and any(
            u.op in ("phi", "map", "ev") or u.op == "call" and short(u) not in ("sum", "abs", "absolute", "max", "norm", "sqrt") for u in T.subterms(g)):
        fb.ob(None, "constraint", run.w, "constrained function", show(g))
        return
    fb.ob(p is not None, "constraint", run.w, "the (squared) norm is constrained", show(g))
    ub = run.it.tm(k["ub"], s) if "ub" in k else T.NONE
    lb = run.it.tm(k["lb"], s) if "lb" in k else T.NONE
    fb.ob(ub is T.ONE, "constraint", run.w, "upper limit of the norm", show(ub))
    fb.ob(T.is_num(lb) and T.cval(lb) <= 0, "constraint", run.w, "no lower limit of the norm", show(lb))
    if "jac" in k and p == 2:
        j = run.it.resolve(k["jac"], s)
        if not (isinstance(j, Val) and T.is_const(j.term)):
            t = run.apply(k["jac"], s)
            fb.ob(T.alg_equal(t, T.mul(T.const(2), V)), "constraint", run.w, "derivative of the squared norm", show(t))


def check_reparametrized(fb, f):
    def hooks(run):
        def pred(it, st, f, a, k, n):
            b = list(it.bind(f, a, k, st, n).values())
            return Val(T.call("predict", it.tm(b[1], st)))
        return {"tranquilo.models.ScalarModel.predict": pred}
    run = Run(fb, f, hooks)
    c = common(run, T.ONE)
    if not c:
        return
    d, st = c
    got = length_of(run.apply(d["fun"], st), V, RADIUS)
    inner = T.ite(T.cmp("<=", RADIUS, T.ONE), V, T.mul(V, T.power(RADIUS, T.const(-1))))
    m = {u: T.call("predict", *u.args[1]) for u in T.subterms(got) if short(u) == "predict"}
    got = T.subst(got, m) if m else got
    if not any(short(u) == "predict" for u in T.subterms(got)):
        fb.ob(None, "objective", run.w, "objective", show(got))
    else:
        want = T.ite(T.cmp("<=", RADIUS, T.ONE), T.call("predict", V), T.call("predict", T.mul(V, T.power(RADIUS, T.const(-1)))))
        ok, why = agree(got, want)
        fb.ob(ok, "objective", run.w, "the objective is the model's value at the projection on the unit sphere", why)
    j = d.get("jac")
    if j is not None and run.it.tm(j, st) is not T.NONE:
        fb.open.append(f"{run.w}: gradient of the projected objective")
    returned(run, project=True)


# --------------------------------------------------------------- multistart
def check_multistart(fb, f, cube_solver):
    ctx = fb.ctx
    runs, starts = [], []

    def hooks(run):
        def solve(it, st, g, a, k, n):
            b = it.bind(g, a, k, st, n)
            x = it.tm(b["x_candidate"], st)
            runs.append((it.resolve(b["model"], st), x, {p: it.tm(v, st) for p, v in b.items() if p not in ("model", "x_candidate")}))
            parts = [("kv", T.const(q), Val(T.call("solution", T.const(q), x))) for q in ("x", "criterion")]
            parts += [("kv", T.const(q), Val(S(q))) for q in ("n_iterations", "success")]
            return it.alloc(st, DictS(parts))

        def draw(it, st, g, a, k, n):
            starts.append({p: it.tm(v, st) for p, v in it.bind(g, a, k, st, n).items()})
            return Val(S("starts"))
        it = Interp(ctx.project, {})
        return {cube_solver.qual: solve, it.find_func("draw_exploration_sample").qual: draw}
    run = Run(fb, f, hooks)
    w = run.w
    if len(starts) != 1 or not runs:
        fb.open.append(f"{w}: {len(starts)} samples of start points, {len(runs)} calls of the cube solver")
        return
    d = starts[0]
    for k, want in (("lower", T.const(-1)), ("upper", T.ONE)):
        g = units(d.get(k, T.NONE))
        fb.ob(T.alg_equal(g, want), "multistart", w, f"{k} bound of the start points", show(g))
    n = d.get("n_samples", T.NONE)
    fb.ob(None if not T.is_num(n) else T.cval(n) == 100, "multistart", w, "number of start points", show(n))
    seed = d.get("seed", T.NONE)
    fb.ob(T.is_num(seed), "multistart", w, "start points are the same in every run", show(seed))
    for m, x, other in runs:
        fb.ob(isinstance(m, Rec) and run.it.tm(m, run.st) is run.it.tm(run.model, run.st), "multistart", w, "the cube solver gets the model", "")
        fb.ob(x is elem(S("starts")) or None, "multistart", w, "the cube solver starts at the start points", show(x))
        r = other.get("radius")
        if r is not None:
            fb.ob(T.alg_equal(units(r), T.ONE), "multistart", w, "the cube solver searches the unit cube", show(r))
    best(fb, run, w)


def best(fb, run, w):
    """The result is that of the start with the lowest value."""
    ph = Flow(run.it).phi
    x, c = run.field("x"), run.field("criterion")
    if x not in ph or c not in ph or ph[x][2] is not ph[c][2] or ph[x][2].iter is not S("starts") or ph[x][2].breaks:
        fb.open.append(f"{w}: choice of the best result: {show(x)[:80] if x is not None else None}")
        return
    e = elem(S("starts"))
    sx, sc = (T.call("solution", T.const(k), e) for k in ("x", "criterion"))
    x0, xb, _ = ph[x]
    c0, cb, _ = ph[c]
    fb.ob(T._inf_like(c0) and not T._inf_like(T.neg(c0)) or T.is_num(c0) and T.cval(c0) == float("inf"), "multistart", w, "any result beats none", show(c0))
    ok, why = False, ""
    for op in ("<=", "<"):
        k = T.cmp(op, sc, c)
        a, w1 = agree(xb, T.ite(k, sx, x))
        b, w2 = agree(cb, T.ite(k, sc, c))
        if a and b:
            ok = True
        why = why or w1 or w2
    fb.ob(ok, "multistart", w, "the result with the lowest value is kept", why)


# -------------------------------------------------------------- start points
def check_sample(fb):
    ctx = fb.ctx
    made = []

    def recorder(kind):
        def hook(it, st, name, args, kwargs, node):
            d = {**dict(zip(["d"], args)), **kwargs}
            made.append((kind, {k: it.tm(v, st) for k, v in d.items()}))
            return None
        return hook
    n = 0
    for m, cls in (("sobol", "Sobol"), ("halton", "Halton"), ("latin_hypercube", "LatinHypercube"), ("random", None)):
        for dist in ("uniform", "triangular"):
            del made[:]
            it = Interp(ctx.project, {})
            for c in ("Sobol", "Halton", "LatinHypercube"):
                it.hooks[f"ext:scipy.stats.qmc.{c}"] = recorder(c)
            f = it.find_func("draw_exploration_sample")
            st = lemma.start(it, f.module)
            w = f"{ctx.project.rel(f.module)}:{f.name}"
            args = {p: Val(S(p)) for p in lemma.params(f)}
            args["sampling_method"], args["sampling_distribution"] = Val(T.const(m)), Val(T.const(dist))
            t = it.tm(it.resolve(it.call(f, [], args, st, f.node), st), st)
            ctx.count(it)
            n += 1
            draws = [e for e in it.events if e.kind == "rng"]
            text = f"{m}, {dist}"
            lo, hi = S("lower"), S("upper")
            if cls is not None:
                fb.ob([k for k, d in made] == [cls], "sample", w, f"the requested sequence is drawn from ({text})", str([k for k, d in made]))
                for k, d in made:
                    dim = T.subst(d.get("d", T.NONE), {T.call("len", v): S("n") for v in (lo, hi, S("x"))})
                    fb.ob(dim is S("n") or (None if dim.op != "sym" and not T.is_num(dim) else False), "sample", w, f"dimension of the points ({text})", show(dim))
                    sd = d.get("seed", d.get("rng", T.NONE))
                    fb.ob(sd is S("seed") or (None if sd is not T.NONE and not T.is_const(sd) else False), "sample", w, f"the seed is used ({text})", show(sd))
            if len(draws) != 1:
                fb.open.append(f"{w}: {len(draws)} draws ({text})")
                continue
            kw = draws[0].data["kwargs"]
            a = draws[0].data["args"]
            if draws[0].data.get("method") == "uniform":
                pos = dict(zip(("low", "high", "size"), a))
                low, high = (kw.get(k, pos.get(k, dflt)) for k, dflt in (("low", T.ZERO), ("high", T.ONE)))
                fb.ob(T.alg_equal(low, T.ZERO) and T.alg_equal(high, T.ONE), "sample", w, f"unscaled points are points of the unit cube ({text})", f"{show(low)} {show(high)}")
                a = [pos["size"]] if "size" in pos else []
            size = kw.get("n", kw.get("size", a[0] if a else None))
            size = it.tm(size, st) if size is not None and not isinstance(size, T.Term) else size
            if size is not None:
                size = T.subst(size, {T.call("len", v): S("n") for v in (lo, hi, S("x"))})
                want = S("n_samples") if cls is not None else T.mk("tuple", S("n_samples"), S("n"))
                fb.ob(size is want, "sample", w, f"number of points ({text})", show(size))
            u = draws[0].data["result"]
            u = u if isinstance(u, T.Term) else it.tm(u, st)
            scaled(fb, w, text, dist, t, u, lo, hi)
    return n


def scaled(fb, w, text, dist, t, u, lo, hi):
    width = T.sub(hi, lo)
    if dist == "uniform":
        if short(t) == "scale":
            kw = dict(t.args[2])
            a = list(t.args[1]) + [kw.get(k) for k in ("sample", "l_bounds", "u_bounds")][len(t.args[1]):]
            ok = a[:3] == [u, lo, hi] and kw.get("reverse", T.FALSE) is T.FALSE
        else:
            ok = T.alg_equal(t, T.add(lo, T.mul(u, width)))
            if not ok and any(v.op in ("phi", "map") or v.op == "call" for v in T.subterms(t)):
                ok = None
        fb.ob(ok, "sample", w, f"points are scaled to the bounds ({text})", show(t))
        return
    if short(t) != "ppf" or "triang" not in str(t.args[0]):
        fb.ob(None, "sample", w, f"triangular distribution ({text})", show(t))
        return
    kw = dict(t.args[2])
    a = list(t.args[1])
    g = {k: (a[i] if len(a) > i else kw.get(k)) for i, k in enumerate(("q", "c", "loc", "scale"))}
    want = {"q": u, "c": T.mul(T.sub(S("x"), lo), T.power(width, T.const(-1))), "loc": lo, "scale": width}
    for k, v in want.items():
        fb.ob(g[k] is not None and T.alg_equal(g[k], v), "sample", w, f"{k} of the triangular distribution ({text})", show(g[k]) if g[k] is not None else "missing")


def check_C27(ctx, rep):
    rep.rule("start", "the minimiser starts at the candidate")
    rep.rule("bounds", "the minimiser is bounded by the unit cube (inscribed cube) and its method respects bounds and constraints")
    rep.rule("objective", "the function handed to the minimiser, applied to a symbolic vector, is the model's value in index notation; its gradient the derivative")
    rep.rule("constraint", "the constrained function is the norm or its square, with limit one")
    rep.rule("result", "point and value of the minimiser are returned, projected where the objective projects")
    rep.rule("multistart", "start points of the unit cube, a fixed seed, the lowest value is kept")
    rep.rule("sample", "start points are scaled from unit points to the bounds, as many as requested, seeded")
    fb = Fallback(ctx, rep)
    reg = {}
    for c in components_of(ctx, "get_subsolver"):
        reg.update({k: v for k, v in c.registry.items() if k.startswith("fallback")})
    n = T.power(S("n"), T.const(-1))
    root = T.power(T.call("numpy.sqrt", S("n")), T.const(-1))
    for label, go in (("fallback_cube", lambda f: check_cube(fb, f, T.ONE)), ("fallback_inscribed_cube", lambda f: check_cube(fb, f, root)),
                      ("fallback_norm_constraint", lambda f: check_norm(fb, f)), ("fallback_reparametrized", lambda f: check_reparametrized(fb, f)),
                      ("fallback_multistart", lambda f: check_multistart(fb, f, reg["fallback_cube"]))):
        if label not in reg:
            fb.open.append(f"{label}: not registered")
            continue
        go(reg[label])
    k = check_sample(fb)
    rep.note(f"{len(reg)} fallback solvers, {k} kinds of start points")
    for o in fb.open:
        rep.note("not decided: " + o)
    rep.assume("scipy.optimize.minimize, scipy.stats.qmc and scipy.stats.triang do what their documentation says; square terms are symmetric")
