"""Rules about the main loop with abstract components."""
from .. import eqv, lemma, models, terms as T
from ..project import Broken
from ..proof import contradictory, first_ite, simp, with_fact
from ..report import ev_where, show
from ..values import Rec, Ref, Tup, Val
from .common import at_break, oracle, same

S = T.sym


def acc_field(m, k):
    return T.mk("attr", m.acc.data["term"], k)


def loop_where(ctx, m):
    return f"{ctx.project.rel(m.loop.module)}:{m.loop.func}"


def head_and_back(m, pred):
    """Loop-head paths of the main loop with their (init, head, back) terms."""
    out = []
    for path, (a, h, b) in m.loop.header.items():
        if pred(path):
            out.append((path, m.flow.term(a, m.loop.head), m.flow.term(h, m.loop.head),
                        m.flow.term(b, m.loop.back) if b is not None else None))
    return out


def trip_bound(m):
    """Upper bound on the iterations of the main loop, from its shape."""
    L = m.loop
    if L.kind == "for":
        t = L.iter
        if t is not None and t.op == "call" and t.args[0] == "range":
            a = t.args[1]
            if len(a) == 1:
                return a[0]
            if len(a) == 2 or (len(a) == 3 and a[2] is T.ONE):
                return T.sub(a[1], a[0])
        return None
    # a counter that grows by one on every iteration and is tested at the head or at a break
    for path, a, h, b in head_and_back(m, lambda p: True):
        if h is None or b is None or a is None or not T.is_num(a):
            continue
        if T.sub(b, h) is not T.ONE:
            continue
        for c in conj(L.test) if L.test is not None else []:
            if c.op == "cmp" and c.args[0] == "<" and c.args[1] is h:
                return T.sub(c.args[2], a)
            n = T.tnot(c)
            if n.op == "cmp" and n.args[0] == "<=" and n.args[2] is h:
                return T.sub(n.args[1], a)
    return None


def conj(t):
    return list(t.args) if t.op == "and" else [t]


def budget(m):
    return S("stopping_max_criterion_evaluations"), S("stopping_max_iterations")


def int_of(t):
    return T.call("int", t)


def last_state(m):
    """Terms that denote the state of the previous iteration -> loop-head values."""
    sub = {}
    for path, a, h, b in head_and_back(m, lambda p: p[0] == "heap" and len(p) == 2):
        sub[h] = path
    return sub


def states_list(ctx, m):
    """The list of iteration records: (phi, initial record, appended record)."""
    it = m.it
    v = m.result_fields.get("states")
    if v is None:
        raise Broken("the result has no entry 'states'")
    v = it.resolve(v, m.st)
    loc = v.loc if isinstance(v, Ref) else None
    t = it.tm(v, m.st)
    for path, (a, h, b) in m.loop.header.items():
        if path == ("heap", loc):
            oa, ob, h = a, b, h.parts[0][1]
        elif loc is None and path[0] == "var" and len(path) == 3 and isinstance(a, Ref) and isinstance(b, Ref):
            h = it.tm(h, m.loop.head)
            if h is not t and not any(u is h for u in T.subterms(t)):
                continue
            oa, ob = m.loop.head.heap.get(a.loc), m.loop.back.heap.get(b.loc)
        else:
            continue
        if oa is None or ob is None or getattr(oa, "kind", 0) != "list" or getattr(ob, "kind", 0) != "list":
            continue
        ini, new = oa.parts, ob.parts
        if len(ini) != 1 or ini[0][0] != "item" or len(new) != 2 or new[0] != ("splice", h) or new[1][0] != "item":
            continue
        return h, it.resolve(ini[0][1], m.loop.head), it.resolve(new[1][1], m.loop.back)
    return None


def previous(ctx, m):
    """Replace 'last record at the loop head' by the loop-head state where both agree."""
    sl = states_list(ctx, m)
    mapping = {}
    if sl is None:
        return mapping
    phi, ini, new = sl
    if not (isinstance(ini, Rec) and isinstance(new, Rec)):
        return mapping
    from ..interp import item
    last = item(phi, T.const(-1))
    for path, a, h, b in head_and_back(m, lambda p: p[0] == "var"):
        for f in new.fields:
            if path[-1] == f and len(path) == 4:
                it = m.it
                i, n = it.tm(ini.fields[f], m.loop.head), it.tm(new.fields[f], m.loop.back)
                if i is a and n is b:
                    mapping[T.mk("attr", last, f)] = h
    return mapping


def exits(m):
    """[(guard, k)] of the breaks of the main loop."""
    return [(g, k) for k, (g, b) in enumerate(m.loop.breaks)]


def nf_end(m):
    """Version of the recorded evaluations at the end of an iteration."""
    r = head_and_back(m, lambda p: p[0] == "heap" and p[-1] == "_nf")
    if len(r) != 1:
        raise Broken("the history is not updated by the main loop")
    return r[0][3]


def conv_terms(ctx, m, prev):
    """Specified convergence message as a term over loop values."""
    new = {k: acc_field(m, k) for k in ("x", "fval")}
    r = m.it.resolve(m.it.tm, m.st) if False else None
    sl = states_list(ctx, m)
    if sl is None or not isinstance(sl[2], Rec):
        raise Broken("iteration records are not tracked")
    rec = sl[2]
    model = m.it.resolve(rec.fields["model"], m.loop.back)
    grad = m.it.tm(m.it.getattr(model, "linear_terms", m.loop.back, None), m.loop.back)
    old = {}
    for path, a, h, b in head_and_back(m, lambda p: p[0] == "var" and len(p) == 4 and p[3] in ("x", "fval")):
        if b is new[path[3]] or b is m.it.tm(rec.fields[path[3]], m.loop.back):
            old[path[3]] = h
    if set(old) != {"x", "fval"}:
        raise Broken("incumbent is not carried by the main loop")
    opts = {f"{k}_{w}": S(f"convergence_{r}_{n}_tolerance")
            for k, n in (("g", "gradient"), ("f", "criterion"), ("x", "params")) for w, r in (("rel", "relative"), ("abs", "absolute"))}

    def mk(it, st):
        ci = it.find_class("ConvOptions")
        return {"options": Rec(ci, {f[0]: Val(opts.get(f[0].replace("tol", ""), S(f[0]))) for f in ci.fields})}
    it, st, t = oracle(ctx, "converged", {"old_x": old["x"], "old_fval": old["fval"], "new_x": new["x"],
                                          "new_fval": new["fval"], "gradient": grad}, make=mk)
    return t


NOTCONV = T.const("not converged")


def check_C04(ctx, rep):
    rep.rule("iterations", "the main loop runs at most stopping_max_iterations times")
    rep.rule("budget", "no iteration starts after the recorded evaluations reached stopping_max_criterion_evaluations")
    rep.rule("stop-reason", "the loop is left only because of the budget or directly after an accepted step with convergence checks enabled")
    rep.rule("evaluations", "evaluations are counted by the history (C10) and only the wrapper adds some")
    rep.rule("counted", "every stored evaluation counts")
    from .hist import check_C10
    from .common import Part
    check_C10(ctx, Part(rep, "counted", ("counts", "stored")))
    m = ctx.abstract()
    w = loop_where(ctx, m)
    ev, itn = budget(m)
    b = trip_bound(m)
    rep.ob(b is not None and b in (itn, int_of(itn)), "iterations", w, "trip count of the main loop is stopping_max_iterations",
           "no bound found" if b is None else show(b))
    L = m.loop
    nf = nf_end(m)
    full = [c for e in (ev, int_of(ev)) for c in (T.cmp("<=", e, T.call("nfun", nf)), T.tnot(T.cmp("<", T.call("nfun", nf), e)))]
    A = T.truth(acc_field(m, "accepted"))
    D = T.truth(S("disable_convergence"))

    def never(g, *facts):
        f = {}
        for c, v in facts:
            f = with_fact(f, c, v)
        return false_under(g, f)

    ok = any(never(L.back_guard, (c, True)) for c in full)
    rep.ob(ok, "budget", w, "no further iteration once the maximum number of evaluations is recorded", show(L.back_guard, 300))
    for g, k in exits(m):
        a = any(never(g, (c, False), (A, False)) for c in full)
        d = any(never(g, (c, False), (D, True)) for c in full)
        rep.ob(a, "stop-reason", w, f"with budget left, the loop is left only after an accepted step (exit {k + 1})", show(g, 200))
        rep.ob(d, "stop-reason", w, f"with budget left and convergence checks disabled the loop goes on (exit {k + 1})", show(g, 200))
    n = sum(1 for e in m.it.events if e.kind == "evaluate")
    rep.ob(n >= 2, "evaluations", w, f"{n} evaluation sites go through the wrapped criterion")


def false_under(g, f):
    if T.decide(g, f) is False:
        return True
    c = first_ite(g) if g.op == "ite" else None
    if c is not None:
        return all(false_under(simp(g, with_fact(f, c, v)), with_fact(f, c, v)) for v in (True, False)
                   if not contradictory(with_fact(f, c, v)))
    return False


def check_C13(ctx, rep):
    rep.rule("criteria", "convergence is declared exactly when a tolerance is met after an accepted step; the message names the first one met")
    m = ctx.abstract()
    w = loop_where(ctx, m)
    prev = previous(ctx, m)
    conv = conv_terms(ctx, m, prev)
    A = T.truth(acc_field(m, "accepted"))
    D = T.truth(S("disable_convergence"))
    ev, _ = budget(m)
    nf = nf_end(m)
    GO = T.const("continue")
    msg = m.result_fields.get("message")
    if msg is None:
        raise Broken("the result has no entry 'message'")
    msg = m.it.tm(msg, m.st)
    got = GO
    for g, k in reversed(exits(m)):
        got = T.ite(T.truth(T.subst(g, prev)), T.subst(at_break(msg, m.loop, k), prev), got)
    full = T.cmp("<=", int_of(ev), T.call("nfun", nf))
    if not any(int_of(ev) is x for x in T.subterms(got)):
        full = T.cmp("<=", ev, T.call("nfun", nf))
    budget_msg = T.const("Maximum number of criterion evaluations reached.")
    rest = T.ite(full, budget_msg, GO)
    want = T.ite(T.tand(A, T.tnot(D)), replace_leaf(conv, NOTCONV, rest), rest)
    same(rep, "criteria", w, "stopping decision and message after an iteration", got, T.subst(want, prev))


def replace_leaf(t, leaf, new):
    if t.op == "ite":
        return T.ite(t.args[0], replace_leaf(t.args[1], leaf, new), replace_leaf(t.args[2], leaf, new))
    return new if t is leaf else t
