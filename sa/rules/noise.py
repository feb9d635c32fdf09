"""C24: noise is estimated from nearby points, simulated as estimated, and overcome by enough evaluations."""
from .. import lemma, models, terms as T
from ..interp import elem
from ..project import Broken
from ..proof import Flow
from ..report import show
from ..seqs import Seqs
from ..values import DictS, Hooked, Val
from . import adapt
from .accept import acceptance, requested
from .bounds import region_value
from .common import canon, component_of, history_value, oracle, same, subject, sym_rec
from .loop import loop_where
from .record import joint, leaves_of, owner, rec_arg, region_terms, role_events, state_rec

S = T.sym


def check_C24(ctx, rep):
    rep.rule("sizes", "candidate and incumbent are evaluated as often as the power calculation demands, within the limits")
    rep.rule("variance", "the noise variance is the weighted mean of the sample variances of nearby, often evaluated points")
    rep.rule("simulation", "rhos are simulated with the estimated noise around the predictions of the model")
    rep.rule("wiring", "estimates of the iteration reach the acceptance decision and the simulation")
    sizes(ctx, rep)
    variance(ctx, rep)
    simulation(ctx, rep)
    wiring(ctx, rep)


def sizes(ctx, rep):
    it, st, r, f = acceptance(ctx, "noisy")
    w = ctx.where(f.name)
    ev = [e for e in it.events if e.kind == "evaluate"]
    if not rep.ob(len(ev) == 1, "sizes", w, "evaluations are requested once", f"{len(ev)} sites"):
        return
    cand = [i for i, (x, _) in it.added.items() if x is S("sub.x")]
    if not rep.ob(len(cand) == 1, "sizes", w, "the candidate is added to the history once", f"{len(cand)} times"):
        return
    for p in ("noise_variance", "power_level", "confidence_level", "n_min", "n_max"):
        if p not in lemma.params(f):
            raise Broken(f"{f.name} lost its parameter {p}")
    have = T.call("len", T.call("fvals", S("state.index"), S("nf0")))
    _, _, want = oracle(ctx, "sample_sizes", {"sigma": T.call("numpy.sqrt", S("noise_variance")), "existing_n1": have,
                                              "expected_improvement": S("sub.expected_improvement")})
    want = dict(zip([T.cval(p.args[0]) for p in want.args], [p.args[1] for p in want.args]))
    zero = T.cmp("==", T.tmax(S("sub.expected_improvement"), T.const(1e-8)), T.ZERO)
    for who, i in (("incumbent", S("state.index")), ("candidate", cand[0])):
        n = requested(ev[0].data["info"], i)
        if rep.ob(n is not None, "sizes", w, f"evaluations of the {who} are requested", show(ev[0].data["info"])):
            same(rep, "sizes", w, f"number of evaluations of the {who}", T.subst(n, {zero: T.FALSE}), T.subst(want[who], {zero: T.FALSE}), limit=20000)


def wiring(ctx, rep):
    m = ctx.abstract()
    w = loop_where(ctx, m)
    tm = lambda v: m.it.tm(v, m.st)
    _, _, rec = state_rec(ctx, m)
    region = region_terms(m, rec.fields["trustregion"])
    on, off = {adapt.noisy(m): T.TRUE}, {adapt.noisy(m): T.FALSE}
    est = {}
    for e in role_events(m, "variance"):
        kw = e.data["kwargs"]
        r = rec_arg(m, e, "Region")
        rep.ob(r is not None and region_terms(m, r) == region, "wiring", w, "noise is estimated around the trustregion of the iteration", "")
        if "model_type" not in kw or "history" not in kw:
            raise Broken("the variance estimator is called without model_type or history")
        est[tm(kw["model_type"])] = e.data["term"]
    acc = m.acc.data["kwargs"].get("noise_variance")
    if acc is None:
        raise Broken("the acceptance step gets no noise_variance")
    rep.ob(T.subst(tm(acc), on) is est.get(T.const("scalar")), "wiring", w, "the acceptance step gets the estimated variance", show(tm(acc)))
    rep.ob(T.subst(tm(acc), off) is T.NONE, "wiring", w, "without noise the acceptance step gets no variance", show(tm(acc)))
    sim = role_events(m, "rhonoise")
    if not rep.ob(len(sim) == 1, "wiring", w, "rhos are simulated once per iteration", f"{len(sim)} sites"):
        return
    kw = sim[0].data["kwargs"]
    for k in ("noise_cov", "trustregion", "xs", "vector_model", "old_vector_model", "model_fitter", "model_aggregator", "subsolver"):
        if k not in kw:
            raise Broken(f"the simulation is called without {k}")
    rep.ob(T.subst(tm(kw["noise_cov"]), on) is est.get(T.const("vector")), "wiring", w, "the simulation gets the estimated covariance", show(tm(kw["noise_cov"])))
    rep.ob(region_terms(m, kw["trustregion"]) == region, "wiring", w, "the simulation uses the trustregion of the iteration", "")
    for k, n in (("model_fitter", "fit"), ("model_aggregator", "aggregate"), ("subsolver", "solve")):
        v = m.it.resolve(kw[k], m.st)
        rep.ob(isinstance(v, Hooked) and v.name == n, "wiring", w, f"{k} of the simulation is the one of the run", repr(v)[:80])
    vm, model = leaves_of(m, kw["vector_model"]), leaves_of(m, rec.fields["model"])
    vk, mk = sorted(vm), sorted(model)
    old = leaves_of(m, kw["old_vector_model"])

    def leaf(ts, facts):
        fit = {owner(m, t, k) for k, t in zip(vk, ts)}
        ag = {owner(m, t, k) for k, t in zip(mk, ts[len(vk):])}
        if len(fit) != 1 or len(ag) != 1 or None in fit or None in ag:
            return "not one fitted and aggregated model"
        fit, ag = fit.pop(), ag.pop()
        mine = rec_arg(m, ag, "VectorModel")
        if fit.data["role"] != "fit" or mine is None or any(owner(m, tm(v), k) is not fit for k, v in mine.fields.items()):
            return "the noise is added to another model than the one of the iteration"
        o = [v for k, v in fit.data["kwargs"].items() if k == "old_model"]
        if not o or leaves_of(m, o[0]) != old:
            return "the old model is not the one of the fit"
        return None
    bad = joint(m, [vm[k] for k in vk] + [model[k] for k in mk], leaf)
    rep.ob(not bad, "wiring", w, "the simulation uses the model of the iteration", "; ".join(sorted(set(bad)))[:300])


LISTS = {"inregion", "keys", "array", "list", "asarray"}


def list_hooks():
    """History reads per index; reads for a list of indices are one read per element."""
    h = models.history_hooks()

    def reader(kind):
        def hook(it, st, f, args, kwargs, node):
            b = it.bind(f, args, kwargs, st, node)
            ix = [v for k, v in b.items() if k != "self"][0]
            i = it.tm(ix, st)
            if i.op == "map":
                return it.alloc(st, DictS([("map", i.args[0], i.args[1], i.args[2], Val(T.call(kind, i.args[2])), i.args[3])]))
            if i.op == "call" and str(i.args[0]).split(".")[-1] in LISTS:
                return it.alloc(st, DictS([("map", i, elem(i), elem(i), Val(T.call(kind, elem(i))), T.TRUE)]))
            return Val(T.call(kind, i))
        return hook
    for k in ("get_fvals", "get_fvecs"):
        h[models.HIST + "." + k] = reader(k)
    return h


def variance(ctx, rep):
    comp = component_of(ctx, "get_variance_estimator")
    for name in sorted(comp.registry):
        f = comp.registry[name]
        w = ctx.where(f.name)
        for kind, fn in (("scalar", "get_fvals"), ("vector", "get_fvecs")):
            def make(it, st):
                return {"trustregion": region_value(it, st), "history": history_value(it, st), "model_type": Val(T.const(kind))}
            it, st, r = subject(ctx, f, make=make, hooks={**models.region_hooks(), **list_hooks()})
            sq = Seqs(Flow(it), {"inregion"})
            got = sq.norm(it.tm(r, st))
            bases = {t for t in T.subterms(got) if t.op == "call" and t.args[0] == "inregion"}
            if not rep.ob(len(bases) == 1, "variance", w, f"{kind}: the points come from one region", show(got)):
                continue
            b = bases.pop()
            reg = [it.tm(region_value(it, st).fields[k], st) for k in ("center", "radius")]
            rep.ob(b.args[1][0] is reg[0], "variance", w, f"{kind}: points around the center of the trustregion", show(b.args[1][0]))
            rep.ob(b.args[1][1] is T.mul(reg[1], S("max_distance_factor")), "variance", w, f"{kind}: points within max_distance_factor radii", show(b.args[1][1]))
            i = elem(b)
            ok = T.call("numpy.isfinite", T.call("get_fvals", i))
            n = T.call("numpy.sum", ok)
            cutoff = T.tmin(T.call("max-over", b, n, T.TRUE), S("min_n_evals"))
            keep = T.cmp("<=", cutoff, n)
            x = T.mk("item", T.call(fn, i), ok)
            one = T.call("numpy.var", x, ddof=T.ONE) if kind == "scalar" else T.call("numpy.cov", x, rowvar=T.FALSE)
            want = T.div(T.call("sum-over", b, T.mul(n, one), keep), T.call("sum-over", b, n, keep))
            same(rep, "variance", w, f"{kind}: weighted mean of the unbiased estimates from finite evaluations", masks(got), masks(want))


def masks(t):
    """One spelling of the finite evaluations of a point and of their number.

    An evaluation is finite exactly if its criterion value is; no evaluation is NaN (they are stored as infinite).
    """
    def read(u, kinds=("get_fvals", "get_fvecs")):
        return u.op == "call" and u.args[0] in kinds

    def last(u):
        return str(u.args[0]).split(".")[-1] if u.op == "call" else ""

    for _ in range(8):
        m = {}
        for u in T.subterms(t):
            a = u.args[1] if u.op == "call" else ()
            kw = dict(u.args[2]) if u.op == "call" and len(u.args) > 2 else {}
            n = last(u)
            if n in ("logical_not", "invert") and a and last(a[0]) == "isinf" or u.op == "not" and last(u.args[0]) == "isinf":
                m[u] = T.call("numpy.isfinite", (a or u.args)[0].args[1][0])
            elif n == "all" and a and last(a[0]) == "isfinite" and read(a[0].args[1][0], ("get_fvecs",)) and (kw.get("axis") in (T.ONE, T.const(-1)) or a[1:2] in ((T.ONE,), (T.const(-1),))):
                m[u] = T.call("numpy.isfinite", T.call("get_fvals", *a[0].args[1][0].args[1]))
            elif n == "isfinite" and a and u.args[0] != "numpy.isfinite":
                m[u] = T.call("numpy.isfinite", *a)
            elif n in ("count_nonzero", "sum", "len") and len(a) == 1 and not kw:
                x = a[0]
                if n == "len" and x.op == "item" and read(x.args[0]) and last(x.args[1]) == "isfinite":
                    m[u] = T.call("numpy.sum", x.args[1])
                elif n != "len" and last(x) == "isfinite" and u.args[0] != "numpy.sum":
                    m[u] = T.call("numpy.sum", x)
            elif n == "int" and len(a) == 1 and last(a[0]) == "sum" and last(a[0].args[1][0]) == "isfinite":
                m[u] = a[0]
            elif u.op == "item" and last(u.args[1]) in ("flatnonzero", "where", "nonzero") and len(u.args[1].args[1]) == 1:
                m[u] = T.mk("item", u.args[0], u.args[1].args[1][0])
            elif u.op == "item" and u.args[1].op == "item" and u.args[1].args[1] is T.ZERO and last(u.args[1].args[0]) in ("where", "nonzero"):
                m[u] = T.mk("item", u.args[0], u.args[1].args[0].args[1][0])
            elif n == "compress" and len(a) >= 2 and read(a[1]):
                m[u] = T.mk("item", a[1], a[0])
            elif n in ("array", "asarray") and len(a) == 1 and a[0].op == "item" and read(a[0].args[0]):
                m[u] = a[0]
        if not m:
            return t
        t = T.subst(t, m)
    return t


ROLES = {"model_fitter": ("x", "y", "region", "old_model", "weights"), "model_aggregator": ("vector_model",), "subsolver": ("model", "trustregion")}


def role(name):
    """A component as a function of its named arguments."""
    def fn(it, st, args, kwargs, node):
        b = dict(zip(ROLES[name], args))
        b.update(kwargs)
        b = {k: it.tm(v, st) for k, v in b.items()}
        if b.get("weights") is T.NONE:
            b.pop("weights")
        return Val(T.call(name, **b))
    return Hooked(name, fn)


def simulation(ctx, rep):
    w = ctx.where("simulate_rho_noise")
    hooks = models.region_hooks()

    def make(it, st):
        return {"vector_model": sym_rec(it, "VectorModel", "vm"), "options": sym_rec(it, "NoiseAdaptationOptions", "opt"), "trustregion": region_value(it, st),
                **{k: role(k) for k in ROLES}}
    ref = {"model_fitter": "fit", "model_aggregator": "aggregate", "subsolver": "solve"}
    it, st, r = subject(ctx, "simulate_rho_noise", make=make, hooks=hooks)
    it2, _, o = oracle(ctx, "simulated_rhos", {}, make=lambda i, s: {ref.get(k, k): v for k, v in make(i, s).items()}, hooks=hooks)
    n = S("opt.rho_noise_n_draws")
    got, want = draws(filled(it.tm(r, st), Flow(it).phi, n), n), draws(o, n)
    if not rep.ob(got is not None, "simulation", w, "one rho per simulated draw of the noise", show(it.tm(r, st))):
        return
    for corr in (T.TRUE, T.FALSE):
        m = {T.truth(S("opt.ignore_corelation")): corr}
        text = "variances only" if corr is T.TRUE else "covariances"
        same(rep, "simulation", w, f"distribution and number of draws ({text})", T.subst(got[0], m), T.subst(want[0], m))
        same(rep, "simulation", w, f"rho of a draw ({text})", T.subst(got[1], m), T.subst(want[1], m), limit=20000)


def pure(t):
    """Draws of the only random number generator, as functions of their arguments."""
    m = {}
    for u in T.subterms(t):
        if u.op == "ev" and u.args[1] == "rng.multivariate_normal":
            ps, k = [], {}
            for a in u.args[2][1:]:
                if a.op == "kw":
                    k[a.args[0]] = a.args[1]
                else:
                    ps.append(a)
            k.update(zip(("mean", "cov", "size"), ps))
            m[u] = T.call("draws", u.args[2][0], **k)
    return T.subst(t, m)


def filled(t, phi, n):
    """An array of n entries that a loop over the draws fills entry by entry: the list of its values."""
    p = phi.get(t)
    if p is None:
        return t
    init, back, lp = p
    if lp.kind != "for" or lp.breaks or back is None or back.op != "store" or back.args[0] is not t or lp.iter is None:
        return t
    if not (init.op == "call" and init.args[1] and init.args[1][0] is n):
        return t
    pos, val = back.args[1], back.args[2]
    src = lp.iter
    ok = {T.call("range", T.call("len", src)), T.call("range", n)}
    if src.op == "zip":
        return t
    if pos.op != "elem" or not (pos.args[0] in ok or pos.args[0] is src):
        return t
    return T.mk("map", src, elem(src), val, T.TRUE)


def draws(t, n):
    """(draws, rho as a function of one draw) of an array of rhos."""
    t = pure(t)
    while t.op == "call" and str(t.args[0]).split(".")[-1] in ("array", "asarray"):
        t = t.args[1][0]
    if t.op != "map" or t.args[3] is not T.TRUE:
        return None
    src, var, val, _ = t.args
    if src.op == "call" and src.args[0] == "range":
        if src.args[1][-1] is not n:
            return None
        arr = {u.args[0] for u in T.subterms(val) if u.op == "item" and u.args[1] is var}
        if len(arr) != 1:
            return None
        src = arr.pop()
        val = T.subst(val, {T.mk("item", src, var): elem(src)})
    return src, T.subst(val, {elem(src): S("one draw")})
