"""C03: the acceptance decision."""
from .. import eqv, lemma, models, terms as T
from ..interp import Interp
from ..project import Broken
from ..report import show
from ..values import Hooked, InstS, Rec, Val
from .common import component_of, history_value, region_rec, sym_rec

S = T.sym


def acceptance(ctx, name):
    """Run one built-in acceptance rule on a symbolic state."""
    key = ("accept", name)
    if key in ctx._lemma:
        return ctx._lemma[key]
    f = component_of(ctx, "get_acceptance_decider").registry[name]
    hooks = models.main_hooks()

    def comp(interp, c, args, kwargs, st, node):
        return models.role_call(interp, c, args, kwargs, st, node)

    it = Interp(ctx.project, hooks, comp)
    it.components, it.added, it.versions = [], {}, {}
    st = lemma.start(it, f.module)
    tr = region_rec(it, st, "tr")
    state = sym_rec(it, "State", "state", {"trustregion": tr})
    sub = sym_rec(it, "SubproblemResult", "sub")
    hist = history_value(it, st)
    g = it.find_func("get_wrapped_criterion")
    wc = models.wrapped_criterion(it, st, g, [Hooked("criterion", None), Val(S("batch_evaluator")), Val(S("n_cores")), hist], {}, None)
    a = {}
    for p in lemma.params(f):
        a[p] = {"subproblem_solution": sub, "state": state, "history": hist, "wrapped_criterion": wc}.get(p, Val(S(p)))
    if "sample_points" in a:
        def draw(interp, st, args, kwargs, node):
            r = interp.ev_term("sample")
            interp.event("sample", st, node, args=tuple(args), kwargs=dict(kwargs), result=r)
            return Val(r)
        a["sample_points"] = Hooked("sample_points", draw)
    for need in ("subproblem_solution", "state", "history", "wrapped_criterion", "min_improvement"):
        if need not in a:
            raise Broken(f"acceptance rule {name!r} lost its parameter {need}")
    r = it.resolve(it.call(f, [], a, st, f.node), st)
    ctx.count(it)
    if not isinstance(r, Rec):
        r2 = it.lift(r, st, lambda v, s: v)
        raise Broken(f"acceptance rule {name!r} does not return one record type: {type(r2).__name__}")
    out = {k: it.tm(v, st) for k, v in r.fields.items()}
    ctx._lemma[key] = (it, st, out, f)
    return ctx._lemma[key]


def requested(info, i):
    """Number of evaluations requested for index i in an evaluation request."""
    if info.op in ("dict", "dmap"):
        for p in (info.args if info.op == "dict" else [info]):
            if p.op == "kv" and p.args[0] is i:
                return p.args[1]
    return None


def check_C03(ctx, rep):
    rep.rule("decision", "accepted exactly when the new value is finite and improves on the incumbent by at least min_improvement")
    rep.rule("rho", "rho is actual over expected improvement of the candidate, with the stated values for zero expectation and non-finite candidates")
    rep.rule("step", "step length is the distance moved, relative step length is in units of the region's radius")
    rep.rule("count", "the recorded number of evaluations is the number requested for the candidate")
    rep.rule("history", "the values compared are the evaluations stored for the two points")
    from .hist import check_C10
    from .common import Part
    check_C10(ctx, Part(rep, "history", ("evaluations", "stored")))
    rep.assume("no NaN reaches the decision (C05); comparisons are over the reals")
    for name in sorted(component_of(ctx, "get_acceptance_decider").registry):
        it, st, r, f = acceptance(ctx, name)
        w = ctx.where(f.name)
        for case, cond in batch_cases(f):
            rr = {k: T.subst(t, cond) for k, t in r.items()}
            decide_one(ctx, rep, it, name + case, w, rr, cond)


def batch_cases(f):
    if "batch_size" in lemma.params(f):
        one = T.cmp("==", S("batch_size"), T.ONE)
        return [(", one evaluation per batch", {one: T.TRUE}), (", several evaluations per batch", {one: T.FALSE})]
    return [("", {})]


def used(it, ts):
    """Evaluations that the values depend on: (index, version) pairs."""
    out = set()
    for t in ts:
        for s in T.subterms(t):
            if s.op == "call" and s.args[0] == "fvals":
                out.add((s.args[1][0], s.args[1][1]))
    return out


def decide_one(ctx, rep, it, tag, w, r, cond):
    x, E, mi = S("sub.x"), S("sub.expected_improvement"), S("min_improvement")
    acc = T.truth(r["accepted"])
    pairs = used(it, [r["accepted"], r["fval"], r["rho"]])
    cand = [(i, v) for i, v in pairs if i in it.added and it.added[i][0] is x]
    if not rep.ob(len({i for i, _ in cand}) == 1 and len({v for _, v in cand}) == 1, "decision", w,
                  f"[{tag}] the decision reads the evaluations of exactly one candidate", show(r["accepted"])):
        return
    c, v = cand[0]
    F = T.call("numpy.mean", T.call("fvals", c, v))
    e, _ = it.versions.get(v, (None, None))
    info = T.subst(e.data["info"], cond) if e is not None else T.NONE
    si = S("state.index")
    if requested(info, si) is not None:
        cur = T.call("numpy.mean", T.call("fvals", si, v))
    else:
        cur = S("state.fval")
    xs = {}
    # the best of additional points that were evaluated in the same batch
    best, FB, bx = None, None, None
    extra = [(i, vv) for i, vv in pairs if i is not c and i is not si]
    if extra:
        best, FB, ok = best_of(it, r, extra, v)
        if not rep.ob(ok, "decision", w, f"[{tag}] additional points compete with their mean values, the smallest wins",
                      show(r["fval"])):
            return
        bx = [T.call("xs", best)]
        G = T.ite(T.cmp("<", FB, F), FB, F)
        X = T.ite(T.cmp("<", FB, F), bx[0], x)
        I = T.ite(T.cmp("<", FB, F), best, c)
    else:
        G, X, I = F, x, c
    fin = T.truth(T.call("numpy.isfinite", G))
    expacc = T.tand(fin, T.cmp("<=", mi, T.sub(cur, G)))

    def same(got, exp, rule, text):
        try:
            ok, why = eqv.equal(got, exp)
        except eqv.TooBig:
            ok, why = False, "decision table too large"
        rep.ob(ok, rule, w, f"[{tag}] {text}", why or "")

    same(acc, expacc, "decision", "accepted iff the new value is finite and cur - new >= min_improvement")
    same(r["fval"], T.ite(expacc, G, S("state.fval")), "decision", "value of the next incumbent")
    same(r["index"], T.ite(expacc, I, si), "decision", "index of the next incumbent")
    newx = T.ite(expacc, X, S("state.x"))
    same(r["x"], newx, "decision", "point of the next incumbent")
    act = T.sub(cur, F)
    exprho = T.ite(T.cmp("==", E, T.ZERO), T.ite(T.cmp("<", T.ZERO, act), T.INF, T.NINF), T.div(act, E))
    same(r["rho"], T.ite(fin, exprho, T.NINF), "rho", "rho of the candidate")
    step = norm(T.sub(r["x"], S("state.x")))
    same(r["step_length"], step, "step", "step length is the Euclidean distance between old and new incumbent")
    same(r["relative_step_length"], T.div(r["step_length"], S("tr.radius")), "step",
         "relative step length is step length over radius")
    n = requested(info, c)
    if n is None:
        rep.ob(False, "count", w, f"[{tag}] the candidate is part of the evaluation request", show(info))
    else:
        same(r["n_evals_acceptance"], n, "count", "recorded evaluations of the candidate")


def norm(t):
    """Euclidean length in the engine's normal form, conditionals outside."""
    if t.op == "ite":
        return T.ite(t.args[0], norm(t.args[1]), norm(t.args[2]))
    if t is T.ZERO:
        return T.ZERO
    return T.call("numpy.linalg.norm", t)


def best_of(it, r, extra, v):
    """The argmin over the additional points (index, mean value, well formed)."""
    for t in (r["index"], r["fval"], r["x"]):
        for s in T.subterms(t):
            if s.op == "call" and s.args[0] == "argminkey":
                d = s.args[1][0]
                if d.op != "dmap":
                    continue
                src, var, key, val, cnd = d.args
                idx = [i for i, vv in extra if vv is v and (src is i or any(u is i for u in T.subterms(src)))]
                if key is not var and key is not src:
                    pass
                good = bool(idx) and cnd is T.TRUE and val.op == "call" and val.args[0] == "numpy.mean" and \
                    any(u.op == "call" and u.args[0] == "fvals" and u.args[1][1] is v for u in T.subterms(val))
                FB = None
                for q in T.subterms(r["fval"]):
                    if q.op == "call" and q.args[0] == "numpy.mean" and any(u is s for u in T.subterms(q)):
                        FB = q
                if FB is None:
                    continue
                return s, FB, good
    return None, None, False
