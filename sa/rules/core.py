"""Rules about the main loop: incumbent, acceptance, budget."""
from .. import terms as T
from ..proof import simp, with_fact, contradictory, first_ite
from ..report import ev_where, show
from ..values import Rec, Val


def fld(m, rec, k):
    if isinstance(rec, Rec) and k in rec.fields:
        return m.it.tm(rec.fields[k], m.st)
    return None


def need_rec(ctx, m):
    from ..project import Broken
    r = m.it.resolve(m.accepted.data["result"], m.st)
    if not isinstance(r, Rec):
        raise Broken(f"{m.decider}: acceptance result is not a record")
    for k in ("x", "fval", "index", "rho", "accepted", "step_length", "candidate_x", "candidate_index"):
        if k not in r.fields:
            raise Broken(f"{m.decider}: acceptance result has no field {k}")
    return r


def state_arg(m):
    """The State value handed to the acceptance rule."""
    from ..project import Broken
    for v in list(m.accept_call.data["kwargs"].values()) + list(m.accept_call.data["args"]):
        if isinstance(v, Rec) and {"x", "fval", "index", "trustregion"} <= set(v.fields):
            return v
    raise Broken("the acceptance rule does not receive the current state")


def sub_sol(m):
    from ..project import Broken
    for v in list(m.accept_call.data["kwargs"].values()) + list(m.accept_call.data["args"]):
        if isinstance(v, Rec) and {"x", "expected_improvement"} <= set(v.fields):
            return v
    raise Broken("the acceptance rule does not receive the subproblem solution")


def state_phis(m):
    """Loop-head terms of the incumbent."""
    s = state_arg(m)
    return {k: m.it.tm(s.fields[k], m.st) for k in ("x", "fval", "index")}, s


def cases(terms, facts, limit=4000):
    """All consistent ways to resolve the outer ite structure of terms."""
    out = []
    stack = [(tuple(terms), dict(facts))]
    while stack:
        ts, f = stack.pop()
        ts = tuple(simp(t, f) for t in ts)
        c = first_ite(*ts)
        if c is None:
            out.append((ts, f))
            if len(out) > limit:
                return out
            continue
        for v in (True, False):
            g = with_fact(f, c, v)
            if not contradictory(g):
                stack.append((ts, g))
    return out


def check_C02(ctx, rep):
    rep.rule("coherent", "solution, value and index of every incumbent belong to one history entry (provenance inference)")
    rep.rule("evaluated", "function values are read only for points whose evaluation was requested before")
    rep.rule("reject-keeps", "a rejected candidate leaves point, value and index of the incumbent unchanged")
    rep.rule("accept-takes", "an accepted candidate becomes the incumbent")
    rep.rule("recentre", "the next trust region is centred at the incumbent")
    rep.rule("result", "the returned solution and criterion are the incumbent's")
    rep.rule("history", "points and evaluations are stored and read under the index of their point")
    from .hist import check_C10
    from .common import Part
    check_C10(ctx, Part(rep, "history", ("points", "evaluations", "stored")))
    rep.assume("built-in acceptance rules; history methods and evaluation wrapper obey their contract (C05, C09, C10)")
    for m in ctx.mains():
        it, st = m.it, m.st
        d = m.decider
        ph, s = state_phis(m)
        r = need_rec(ctx, m)
        w = ev_where(ctx, m.accepted)
        wd = ctx.where(_decider_func(m))
        # incumbent at loop head: coherent by induction over the main loop
        ok, why = m.prov.coherent((ph["x"], ph["fval"], ph["index"]), {})
        rep.ob(ok, "coherent", w, f"[{d}] incumbent (x, fval, index) at the head of every iteration", why or "")
        new = [fld(m, r, k) for k in ("x", "fval", "index")]
        hyp = frozenset({(ph["x"], ph["fval"], ph["index"])})
        ok, why = m.prov.coherent(tuple(new), m.accepted.facts and {}, hyp)
        rep.ob(ok, "coherent", wd, f"[{d}] incumbent returned by the acceptance rule", why or "")
        # candidate
        cand = [fld(m, r, "candidate_x"), None, fld(m, r, "candidate_index")]
        ok, why = _coherent2(m, cand[0], cand[2], {(ph["x"], ph["index"])})
        rep.ob(ok, "coherent", wd, f"[{d}] candidate point and candidate index", why or "")
        # reads after evaluation
        bad = []
        n = 0
        for t in new + [fld(m, r, "accepted"), fld(m, r, "rho")]:
            for i, v in m.prov.versions(t):
                n += 1
                if i is ph["index"]:
                    continue
                if not m.prov.evaluated(i, v, {}):
                    bad.append(show(i))
        rep.ob(not bad, "evaluated", wd, f"[{d}] values used by the acceptance rule were evaluated before",
               ", ".join(sorted(set(bad))))
        # accept / reject
        acc = T.truth(fld(m, r, "accepted"))
        okr, oka = True, True
        det = ""
        for ts, f in cases(new + [acc], {}):
            a = T.decide(ts[3], f)
            if a is False or a is None:
                g = with_fact(f, ts[3], False)
                if not contradictory(g):
                    same = all(simp(t, g) is ph[k] for t, k in zip(ts, ("x", "fval", "index")))
                    if not same:
                        okr = False
                        det = "rejected but state becomes " + ", ".join(show(t, 90) for t in ts[:3])
        rep.ob(okr, "reject-keeps", wd, f"[{d}] rejection keeps the incumbent", det)
        det = ""
        cx, ci = cand[0], cand[2]
        f0 = with_fact({}, acc, True)
        for ts, f in cases([new[0], new[2], cx, ci], f0):
            if ts[0] is not ts[2] or ts[1] is not ts[3]:
                oka = False
                det = "accepted but state is " + show(ts[0], 90) + " / " + show(ts[1], 90)
        rep.ob(oka, "accept-takes", wd, f"[{d}] acceptance adopts the candidate", det)
        # re-centring: back-edge values of the main loop
        back = {}
        for k in ("x", "fval", "index"):
            t = ph[k]
            if t in m.flow.phi:
                back[k] = m.flow.phi[t][1]
        tr = s.fields["trustregion"]
        c = it.tm(tr.fields["center"], st) if isinstance(tr, Rec) else None
        okc = False
        det = "centre of the trust region is not tracked"
        if c is not None and c in m.flow.phi and "x" in back:
            i0, b0, _ = m.flow.phi[c]
            x0 = m.flow.phi[ph["x"]][0]
            okc = i0 is x0 and b0 is back["x"]
            det = f"centre {show(b0, 100)} but incumbent {show(back['x'], 100)}"
        rep.ob(okc, "recentre", w, f"[{d}] centre of the next trust region is the incumbent", det)
        for k, t in zip(("x", "fval", "index"), new):
            rep.ob(back.get(k) is t, "accept-takes", w, f"[{d}] next incumbent's {k} is the one the acceptance rule returned",
                   show(back.get(k), 100))
        # result
        res = m.result_fields
        sx, sf = res.get("solution_x"), res.get("solution_criterion")
        if sx is None or sf is None:
            rep.ob(False, "result", w, f"[{d}] result has solution_x and solution_criterion")
        else:
            sx, sf = it.tm(sx, st), it.tm(sf, st)
            ok, why = _result_pair(m, sx, sf, ph, new)
            rep.ob(ok, "result", w, f"[{d}] returned solution and criterion are the incumbent's", why)


def _decider_func(m):
    for e in m.it.events:
        if e.kind == "getcomponent" and e.data["comp"].label == m.it_label(m) if hasattr(m, "it_label") else False:
            pass
    # last function on the stack of the acceptance result
    c = [c for c, *_ in m.it.components if T.is_const(m.it.tm(c.selected, m.st)) and
         T.cval(m.it.tm(c.selected, m.st)) == m.decider]
    f = c[0].registry[m.decider]
    return f.name


def _coherent2(m, x, i, hyp):
    for ts, f in cases_until(m, [x, i], {}, lambda ts, f: tuple(ts) in hyp or bool(m.prov.x(ts[0]) & {ts[1]})):
        return False, "point %s with index %s" % (show(ts[0], 120), show(ts[1], 120))
    return True, ""


def cases_until(m, terms, facts, good, depth=0):
    """Leaves of the case split on which `good` does not hold."""
    ts = tuple(simp(t, facts) for t in terms)
    if good(ts, facts):
        return []
    c = first_ite(*ts)
    if c is None or depth > 120:
        return [(ts, facts)]
    out = []
    for v in (True, False):
        g = with_fact(facts, c, v)
        if not contradictory(g):
            out += cases_until(m, ts, g, good, depth + 1)
    return out


def _result_pair(m, sx, sf, ph, new):
    def good(ts, f):
        if ts[0] is ph["x"] and ts[1] is ph["fval"]:
            return True
        if ts[0] is simp(new[0], f) and ts[1] is simp(new[1], f):
            return True
        return False
    bad = cases_until(m, [sx, sf], {}, good)
    if bad:
        return False, "returns %s with value %s" % (show(bad[0][0][0], 120), show(bad[0][0][1], 120))
    return True, ""
