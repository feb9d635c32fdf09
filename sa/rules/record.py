"""C19, C23: what an iteration records belongs together; model points are evaluated often enough."""
import math
from fractions import Fraction

from .. import terms as T
from ..project import Broken
from ..proof import contradictory, first_ite, simp, with_fact
from ..report import ev_where, show
from ..values import Rec, Val
from .adapt import carried_n
from .common import same
from .loop import acc_field, loop_where, states_list

S = T.sym


def joint(m, ts, leaf, facts=None, hyp=None, depth=0):
    """Check leaf(ts, facts) for every joint alternative of the terms; values carried by inner loops by induction."""
    facts = {} if facts is None else facts
    hyp = set() if hyp is None else hyp
    if depth > 60:
        raise Broken("joint case analysis too deep")
    ts = tuple(simp(t, facts) for t in ts)
    c = first_ite(*ts)
    if c is not None:
        out = []
        for v in (True, False):
            f = with_fact(facts, c, v)
            if not contradictory(f):
                out += joint(m, ts, leaf, f, hyp, depth + 1)
        return out
    loops = [m.flow.phi[t][2] for t in ts if t in m.flow.phi and m.flow.phi[t][2] is not m.loop]
    if loops:
        L = max(loops, key=lambda l: l.id)
        if ts in hyp:
            return []
        hyp.add(ts)
        out = []
        for k in (0, 1):
            new = []
            for t in ts:
                p = m.flow.phi.get(t)
                u = p[k] if p is not None and p[2] is L else t
                if u is None:
                    return out + ["a value is not defined on every path of a loop"]
                new.append(u)
            out += joint(m, new, leaf, {}, hyp, depth + 1)
        return out
    r = leaf(ts, facts)
    return [r] if r else []


def role_events(m, name=None):
    return [e for e in m.it.events if e.kind == "role" and (name is None or e.data["role"] == name)]


def by_term(m):
    return {e.data["term"]: e for e in role_events(m)}


def owner(m, t, k):
    """Role event whose field k the term is."""
    if t.op == "attr" and t.args[1] == k:
        return by_term(m).get(t.args[0])
    return None


def leaves_of(m, v):
    """Field terms of a record value: name -> term."""
    v = m.it.resolve(v, m.st)
    if isinstance(v, Rec):
        return {k: m.it.tm(x, m.st) for k, x in v.fields.items()}
    t = m.it.tm(v, m.st) if not isinstance(v, T.Term) else v
    return {"": t}


def arguments(e):
    return list(e.data["args"]) + list(e.data["kwargs"].values())


def rec_arg(m, e, cls):
    for v in arguments(e):
        v = m.it.resolve(v, m.st)
        if isinstance(v, Rec) and v.cls.name == cls:
            return v
    return None


def state_rec(ctx, m):
    sl = states_list(ctx, m)
    if sl is None or not isinstance(sl[2], Rec):
        raise Broken("the list of iteration records was not found")
    return sl


def region_terms(m, rec):
    rec = m.it.resolve(rec, m.st)
    return {k: m.it.tm(rec.fields[k], m.st) for k in ("center", "radius")} if isinstance(rec, Rec) else None


def fit_data(m, e):
    """(indices, version, averaged, region) of a fit event."""
    idx = None
    pts = None
    for v in arguments(e):
        t = m.it.tm(v, m.st)
        if t.op == "call" and t.args[0] == "modelfvecs":
            idx = t.args[1]
        elif t.op == "call" and t.args[0] == "xs":
            pts = t.args[1][0]
    return idx, pts


def check_C19(ctx, rep):
    rep.rule("model", "the recorded model aggregates the fit to the recorded points in the recorded region")
    rep.rule("candidate", "the candidate of the iteration solves the recorded model in the recorded region")
    rep.rule("indices", "new, used and discarded indices partition the recorded and the found points")
    rep.rule("decision", "the fields describing the decision are those of the acceptance step of the iteration")
    rep.rule("pairs", "points and indices stay aligned")
    rep.rule("history", "model data pair the model points with the means of their own evaluations, points of a region are those within its radius")
    rep.rule("filters", "filters keep points with their indices")
    from .hist import check_C10
    from .common import Part
    from .filters import check_C15
    check_C10(ctx, Part(rep, "history", ("data", "region", "points")))
    check_C15(ctx, Part(rep, "filters", ("pairing",)))
    m = ctx.abstract()
    w = loop_where(ctx, m)
    _, _, new = state_rec(ctx, m)
    fs = new.fields
    for need in ("trustregion", "model", "model_indices", "new_indices", "old_indices_used", "old_indices_discarded"):
        if need not in fs:
            raise Broken(f"the iteration record has no field {need}")
    tm = lambda v: m.it.tm(v, m.loop.back)
    idx = tm(fs["model_indices"])
    model = leaves_of(m, fs["model"])
    region = region_terms(m, fs["trustregion"])
    acc = m.acc
    sub = None
    for v in arguments(acc):
        v = m.it.resolve(v, m.st)
        if isinstance(v, Rec) and v.cls.name == "SubproblemResult":
            sub = {k: m.it.tm(x, m.st) for k, x in v.fields.items()}
    if sub is None:
        raise Broken("the acceptance step does not get the solution of a subproblem")
    mk, sk = sorted(model), sorted(sub)
    n = [0]

    def leaf(ts, facts):
        n[0] += 1
        i = ts[0]
        mt = dict(zip(mk, ts[1:1 + len(mk)]))
        su = dict(zip(sk, ts[1 + len(mk):]))
        ag = {owner(m, t, k) for k, t in mt.items()}
        if len(ag) != 1 or None in ag:
            return "model: not one aggregated model: " + "; ".join(show(t)[:60] for t in mt.values())
        ag = ag.pop()
        if ag.data["role"] != "aggregate":
            return "model: not an aggregated model"
        vm = rec_arg(m, ag, "VectorModel")
        fit = {owner(m, m.it.tm(v, m.st), k) for k, v in vm.fields.items()} if vm is not None else {None}
        if len(fit) != 1 or None in fit:
            return "model: aggregates something else than one fitted model"
        fit = fit.pop()
        got, pts = fit_data(m, fit)
        if got is None or got[0] is not i:
            return f"model: fitted to points {show(got[0]) if got else '?'} instead of the recorded {show(i)}"
        if pts is not got[0]:
            return "model: fitted to points and values of different indices"
        if got[2] is not T.TRUE:
            return "model: fitted to single evaluations instead of means"
        r = rec_arg(m, fit, "Region")
        if r is None or region_terms(m, r) != region:
            return "model: fitted in another region than the recorded one"
        so = {owner(m, t, k) for k, t in su.items()}
        if len(so) != 1 or None in so:
            return "candidate: not the solution of one subproblem"
        so = so.pop()
        sm = rec_arg(m, so, "ScalarModel")
        if sm is None or any(m.it.tm(v, m.st) is not mt[k] for k, v in sm.fields.items()):
            return "candidate: solves another model than the recorded one"
        r = rec_arg(m, so, "Region")
        if r is None or region_terms(m, r) != region:
            return "candidate: solves the model in another region than the recorded one"
        return None

    bad = joint(m, (idx,) + tuple(model[k] for k in mk) + tuple(sub[k] for k in sk), leaf)
    for kind in ("model", "candidate"):
        b = sorted({x for x in bad if x.startswith(kind) or (kind == "model" and ":" not in x)})
        rep.ob(not b and n[0] > 0, kind, w, "recorded model, points, region and candidate belong together", "; ".join(b)[:600] or f"{n[0]} cases")
    rep.rule("vector", "the recorded fitted model is the one the recorded model aggregates")
    vec = leaves_of(m, fs["vector_model"]) if "vector_model" in fs else None
    if vec is not None:
        vk = sorted(vec)

        def leaf_v(ts, facts):
            vt = dict(zip(vk, ts[:len(vk)]))
            ag = {owner(m, t, k) for k, t in zip(mk, ts[len(vk):])}
            ag = ag.pop() if len(ag) == 1 else None
            vm = rec_arg(m, ag, "VectorModel") if ag is not None else None
            if vm is None or any(m.it.tm(v, m.st) is not vt[k] for k, v in vm.fields.items()):
                return "other model"
            return None
        bad = joint(m, tuple(vec[k] for k in vk) + tuple(model[k] for k in mk), leaf_v)
        start = not any(mentions_loop(m, vec[k]) for k in vk)
        text = ("vector_model of every iteration is the constant model of the start point and never replaced by a fitted one"
                if start else "vector_model is the fitted model of the iteration")
        rep.ob(not bad, "vector", w, text, "; ".join(sorted(set(bad))))
    flt = role_events(m, "filter")
    rep.ob(len(flt) == 1, "indices", w, "existing points are filtered once per iteration", str(len(flt)))
    if len(flt) == 1:
        found = [m.it.tm(v, m.st) for v in arguments(flt[0]) if (lambda t: t.op == "call" and t.args[0] == "inregion")(m.it.tm(v, m.st))]
        rep.ob(len(found) == 1, "indices", w, "the filter gets the indices found in the search region", str(len(found)))
        if len(found) == 1:
            f = found[0]
            c, r = f.args[1][0], f.args[1][1]
            fac = T.mul(r, T.inv(region["radius"]))
            ok = c is region["center"] and not any(u is region["radius"] for u in T.subterms(fac))
            rep.ob(ok, "indices", w, "the search region is a multiple of the recorded region", show(r))
            sd = lambda a, b: T.call("numpy.setdiff1d", a, b)
            for k, want in (("new_indices", setdiff(idx, f)), ("old_indices_used", intersect(idx, f)), ("old_indices_discarded", setdiff(f, idx))):
                got = tm(fs[k])
                rep.ob(norm_set(got) == want, "indices", w, f"{k} is what it says", show(got))
    for k in ("x", "index", "fval", "rho", "accepted", "step_length", "candidate_x", "candidate_index"):
        if k in fs:
            rep.ob(tm(fs[k]) is acc_field(m, k), "decision", w, f"{k} is that of the acceptance step", show(tm(fs[k])))
    # alignment of points and indices where both are handed on
    aligned(ctx, m, rep)


def mentions_loop(m, t):
    """The term depends on something computed in the main loop."""
    inside = {e.data["term"] for e in role_events(m) if e.loops and e.loops[0] == m.loop.id}
    return any(u in m.flow.phi or u in inside for u in T.subterms(t))


def setop(t, name):
    return t.op == "call" and str(t.args[0]).split(".")[-1] == name


WRAP = ("unique", "array", "asarray", "atleast_1d", "sort", "sorted", "list", "set", "tuple", "frozenset", "asanyarray")


def strip_set(t):
    """The same set of values without conversions and sorting."""
    while t.op == "call" and t.args[1] and str(t.args[0]).split(".")[-1] in WRAP:
        t = t.args[1][0]
    return t


def norm_set(t):
    t = strip_set(t)
    if t.op == "call":
        n, a = str(t.args[0]).split(".")[-1], t.args[1]
        if n in ("setdiff1d", "difference", "sub") and len(a) >= 2:
            return setdiff(norm_set(a[0]), norm_set(a[1]))
        if n in ("intersect1d", "intersection") and len(a) >= 2:
            return intersect(norm_set(a[0]), norm_set(a[1]))
    if t.op == "item":
        base, k = t.args[0], t.args[1]
        neg = False
        while (k.op == "call" and str(k.args[0]).split(".")[-1] in ("invert", "logical_not")) or k.op == "not":
            k = k.args[1][0] if k.op == "call" else k.args[0]
            neg = not neg
        if k.op == "call" and str(k.args[0]).split(".")[-1] in ("isin", "in1d") and strip_set(k.args[1][0]) is strip_set(base):
            return (setdiff if neg else intersect)(norm_set(base), norm_set(k.args[1][1]))
    return t


def setdiff(a, b):
    return ("diff", a, b)


def intersect(a, b):
    return ("both", frozenset((a, b)))


def aligned(ctx, m, rep):
    bt = by_term(m)

    def leaf(ts, facts):
        x, i = ts
        if x.op == "call" and x.args[0] == "xs" and x.args[1][0] is i:
            return None
        if x.op == "item" and i.op == "item" and x.args[0] is i.args[0] and x.args[1] is T.ZERO and i.args[1] is T.ONE:
            e = bt.get(x.args[0])
            if e is not None and e.data["role"] in ("drop", "filter"):
                return None
        return f"{show(x)[:80]} / {show(i)[:80]}"

    for e in role_events(m):
        if e.data["role"] not in ("drop", "filter"):
            continue
        kw = e.data["kwargs"]
        b = {k: m.it.tm(v, m.st) for k, v in kw.items() if k in ("xs", "indices")}
        if len(b) != 2:
            raise Broken(f"{e.data['role']} is not called with points and indices by name")
        bad = joint(m, (b["xs"], b["indices"]), leaf)
        rep.ob(not bad, "pairs", ev_where(ctx, e), f"points and indices given to {e.data['role']} belong together", "; ".join(sorted(set(bad))))
    for e in role_events(m, "rhonoise"):
        v = e.data["kwargs"]
        x = m.it.tm(v["xs"], m.st)
        vm = rec_named(m, v, "vector_model")
        keys = sorted(vm)

        def leaf2(ts, facts):
            x, mt = ts[0], dict(zip(keys, ts[1:]))
            o = {owner(m, t, k) for k, t in mt.items()}
            if len(o) != 1 or None in o:
                return "not one fitted model"
            got, pts = fit_data(m, o.pop())
            if x.op == "call" and x.args[0] == "xs" and got and x.args[1][0] is got[0]:
                return None
            if x.op == "item" and got and got[0].op == "item" and got[0].args[0] is x.args[0] and x.args[1] is T.ZERO and got[0].args[1] is T.ONE:
                return None
            return f"points {show(x)[:80]} of a model fitted to {show(got[0])[:80] if got else '?'}"
        bad = joint(m, (x,) + tuple(vm[k] for k in keys), leaf2)
        rep.ob(not bad, "pairs", ev_where(ctx, e), "noise is simulated at the points of the model", "; ".join(sorted(set(bad))))


def rec_named(m, kw, k):
    v = m.it.resolve(kw[k], m.st)
    if not isinstance(v, Rec):
        raise Broken(f"{k} is not a record")
    return {a: m.it.tm(b, m.st) for a, b in v.fields.items()}


# ------------------------------------------------------------------ C23
def check_C23(ctx, rep):
    rep.rule("covered", "every point of a model was evaluated at least as often as the iteration demands")
    rep.rule("current", "a model uses all evaluations made before it was fitted")
    rep.rule("exact", "new points are evaluated exactly that often and old ones only as often as is missing")
    rep.rule("start", "table of the number of evaluations of the start point = the configured one rounded up to full batches, one if that is not above one")
    started(ctx, rep)
    m = ctx.abstract()
    w = loop_where(ctx, m)
    _, na, nh, nb = carried_n(m)
    bt = by_term(m)
    evals = [e for e in m.it.events if e.kind == "evaluate" and e.loops and e.loops[0] == m.loop.id]

    def parts_of(e):
        if e.data["parts"] is None:
            raise Broken("a request for evaluations is not a dictionary with known structure")
        return e.data["parts"]

    def val(v):
        return v if isinstance(v, T.Term) else m.it.tm(v, m.st)

    def full(p):
        """The part tops its points up to the number of the iteration."""
        if p[0] != "map":
            return False
        _, coll, var, key, v, cond = p
        v = val(v)
        if key is not var:
            return False
        if v is nh:
            return cond is T.TRUE
        have = missing(v)
        if have is None or have.args[1][0] is not var:
            return False
        d = T.sub(nh, have)
        return cond is T.TRUE or cond is T.cmp("<", T.ZERO, d) or cond is T.truth(d) or T.alg_equal(cond, T.cmp("<", have, nh))

    def missing(v):
        for u in T.subterms(v):
            if u.op == "call" and u.args[0] == "nevals":
                d = T.sub(nh, u)
                if v is d or (v.op == "call" and v.args[0] == "max" and any(a is d for a in v.args[1])):
                    return u
        return None

    for e in evals:
        for p in parts_of(e):
            rep.ob(full(p), "exact", ev_where(ctx, e), "requested number of evaluations", show(val(p[4])) + " if " + show(p[5]) if p[0] == "map" else show(val(p[-1])))

    def topped(i, before):
        return any(p[0] == "map" and p[1] is i and full(p) for e in evals if e.id < before for p in parts_of(e))

    def covered(before):
        def leaf(ts, facts):
            i = ts[0]
            todo = [i]
            while todo:
                t = todo.pop()
                if t.op == "call" and t.args[0] in ("hstack", "concatenate", "numpy.append", "append") or (
                        t.op == "call" and str(t.args[0]).split(".")[-1] in ("hstack", "concatenate", "append", "atleast_1d", "array", "asarray", "r_", "unique")):
                    for a in t.args[1]:
                        todo += list(a.args) if a.op in ("tuple", "list") else [a]
                    continue
                if t.op == "ite" or t in m.flow.phi and m.flow.phi[t][2] is not m.loop:
                    r = joint(m, (t,), leaf, dict(facts), hyp)
                    if r:
                        return r[0]
                    continue
                if t in m.it.added or topped(t, before):
                    if not topped(t, before):
                        return f"new points {show(t)} are not evaluated often enough"
                    continue
                if t.op == "item" and t.args[1] is T.ONE and t.args[0] in bt:
                    e = bt[t.args[0]]
                    if e.data["role"] == "drop":
                        sub = [m.it.tm(v, m.st) for k, v in e.data["kwargs"].items() if k == "indices"]
                        todo += sub
                        continue
                return f"{show(t)[:100]} is used without making sure that it was evaluated often enough"
            return None
        hyp = set()
        return leaf, hyp

    fits = [e for e in role_events(m, "fit") if e.loops and e.loops[0] == m.loop.id]
    rep.ob(bool(fits), "covered", w, f"{len(fits)} fits in the loop")
    for k, e in enumerate(fits):
        got, pts = fit_data(m, e)
        if got is None:
            rep.ob(False, "covered", ev_where(ctx, e), f"fit {k} uses model data of the history")
            continue
        leaf, hyp = covered(e.id)
        bad = joint(m, (got[0],), leaf, None, hyp)
        rep.ob(not bad, "covered", ev_where(ctx, e), f"points of fit {k} were evaluated often enough", "; ".join(sorted(set(bad)))[:400])
        last = [v for v in evals if v.id < e.id and tuple(v.loops) == tuple(e.loops[:len(v.loops)])]
        last = max(last, key=lambda v: v.id) if last else None
        rep.ob(last is not None and got[1] is last.data["nf"], "current", ev_where(ctx, e), f"fit {k} uses the evaluations known at that time",
               f"{show(got[1])} / {show(last.data['nf']) if last else '-'}")


def started(ctx, rep):
    """Decides the number of evaluations of the start point for every whole number that is configured."""
    from .points import rounding
    n, b = S("n_evals_at_start"), T.call("int", S("batch_size"))
    found = 0
    for f, it, st, r in ctx.sweep():
        if f.name != "_internal_tranquilo":
            continue
        for e in it.events:
            if e.kind != "opaque" or e.loops or T.show(e.data["func"]) != "evaluate_criterion" or not e.data["args"]:
                continue
            found += 1
            t = T.subst(e.data["args"][0], {S("batch_size"): b})
            w = ev_where(ctx, e)
            num = {u.args[1] for u in T.subterms(t) if T.is_num(u) and not isinstance(T.cval(u), bool)}
            low = [k for k in range(-2, int(max([x for x in num if isinstance(x, int)], default=0)) + 4)]
            for k in low:
                check_start(rep, w, rounding(T.subst(t, {n: T.const(k)})), T.const(k), b)
            big = S("n")
            v = {}
            for u in T.subterms(t):
                if u.op == "cmp" and len(u.args) == 3 and n in u.args[1:]:
                    o = u.args[2] if u.args[1] is n else u.args[1]
                    if T.is_num(o):
                        v[u] = T.const({"<": u.args[1] is not n, "<=": u.args[1] is not n, "==": False, "!=": True}.get(u.args[0], False))
            check_start(rep, w, rounding(T.subst(T.subst(t, v), {n: big})), big, b)
    if not found:
        rep.note("the request for the evaluations of the start point was not found; its number is not decided")


def check_start(rep, w, t, k, b):
    one = k.op != "sym" and T.cval(k) <= 1
    want = T.ONE if one else T.mul(b, T.call("upquot", k, b))
    text = f"number of evaluations of the start point ({'any larger number' if k.op == 'sym' else T.cval(k)} configured)"
    ok = t.op == "dict" and len(t.args) == 1
    got = t.args[0].args[-1] if ok else t
    if ok and (got is want or T.alg_equal(got, want)):
        rep.ob(True, "start", w, text)
        return
    ks = [k] if k.op != "sym" else [T.const(x) for x in (*range(2, 13), 25, 97)]
    for n in ks:
        for size in range(1, 10):
            g, x = (at(u, {k: T.cval(n), b: size}) for u in (t, want))
            if g is None or x is None:
                rep.note(f"not decided: {text}: {show(got)[:200]}")
                return
            if g != x:
                rep.ob(False, "start", w, text, f"{g} but expected {x} for {T.cval(n)} evaluations and batch size {size}: {show(got)[:200]}")
                return
    rep.ob(True, "start", w, text)


def at(t, env):
    """Value of a formula in whole numbers at one row of its table; None if it is no such formula."""
    if t in env:
        return Fraction(env[t])
    a = [x for x in T.children(t)]
    if T.is_num(t):
        return Fraction(t.args[1])
    if t.op == "dict" and len(t.args) == 1:
        kv = t.args[0].args
        return at(kv[-1], env) if kv[-2] is T.ZERO else None
    if t.op == "sum":
        r = Fraction(0)
        for c, m in t.args:
            for u, e in m:
                v = at(u, env)
                if v is None or v == 0 and e < 0:
                    return None
                c = c * v ** int(e)
            r += c
        return r
    if t.op == "ite":
        c = at(t.args[0], env)
        return None if c is None else at(t.args[1] if c else t.args[2], env)
    if t.op == "cmp":
        u, v = at(t.args[1], env), at(t.args[2], env)
        if u is None or v is None:
            return None
        return Fraction({"<": u < v, "<=": u <= v, "==": u == v, "!=": u != v}.get(t.args[0], u == v))
    if t.op in ("min", "max"):
        vs = [at(u, env) for u in t.args]
        return None if None in vs else (min if t.op == "min" else max)(vs)
    if t.op in ("not", "truth"):
        v = at(t.args[0], env)
        return None if v is None else Fraction(bool(v) == (t.op == "truth"))
    if t.op == "call":
        n, vs = str(t.args[0]).split(".")[-1], [at(u, env) for u in t.args[1]]
        if None in vs or not vs:
            return None
        if len(vs) == 1:
            x = vs[0]
            f = {"int": int, "ceil": math.ceil, "floor": math.floor, "trunc": int, "round": round, "rint": round, "bool": bool, "float": Fraction}.get(n)
            return None if f is None else Fraction(f(x))
        if len(vs) == 2 and vs[1] != 0:
            x, y = vs
            if n in ("floordiv", "floor_divide"):
                return Fraction(x // y)
            if n in ("mod", "remainder"):
                return x % y
            if n == "upquot":
                return Fraction(-(-x // y))
    return None
