"""C11, C12: adaptation of the radius and of the number of evaluations."""
from .. import eqv, terms as T
from ..project import Broken
from ..report import show
from ..values import Rec, Val
from .common import magnitudes, oracle, positive, same
from .loop import acc_field, head_and_back, loop_where

S = T.sym


def options_of(ctx, m, cls, ts):
    """Option bundle `cls` as it reaches the loop: field -> term."""
    ci = m.it.find_class(cls)
    found = {}
    for t in ts:
        for s in T.subterms(t):
            if s.op == "call" and s.args[0] == "option" and s.args[1][1] is T.const(cls):
                found.setdefault(T.cval(s.args[1][2]), s)
    return Rec(ci, {f[0]: Val(found.get(f[0], S(f"{cls}.{f[0]}"))) for f in ci.fields})


def carried(m, *tail):
    r = head_and_back(m, lambda p: p[0] == "var" and p[-len(tail):] == tail)
    if len(r) != 1:
        raise Broken(f"{'.'.join(tail)} is not carried by the main loop ({len(r)} candidates)")
    return r[0]


def carried_n(m):
    """The number of evaluations per point: the carried number that is updated from the simulated rhos."""
    terms = {e.data["term"] for e in rho_noise(m)}
    plain = head_and_back(m, lambda p: p[0] == "var" and len(p) == 3)
    r = [x for x in plain if x[3] is not None and terms & set(T.subterms(x[3]))]
    if len(r) > 1:  # results of the simulation that are carried along
        r = [x for x in r if x[3] not in terms and _used(m, x[2])] or r
    if len(r) != 1:
        r = [x for x in plain if x[0][2].startswith("n_evals_per_point")]
    if len(r) != 1:
        raise Broken("the number of evaluations per point is not carried by the main loop")
    return r[0]


def _used(m, h):
    return any(h in set(T.subterms(m.it.tm(v, m.st))) for e in m.it.events if e.kind == "role" for v in e.data["kwargs"].values())


def rho_noise(m):
    ev = [e for e in m.it.events if e.kind == "role" and e.data["role"] == "rhonoise"]
    return ev


def noisy(m):
    for t in (S("noisy"),):
        return T.truth(t)


def check_C11(ctx, rep):
    rep.rule("update", "expand after good large steps, keep after acceptable steps or more evaluations, shrink otherwise, within the limits")
    rep.rule("start", "the first radius is the configured one; sign analysis: its default is positive")
    m = ctx.abstract()
    w = loop_where(ctx, m)
    _, a, h, b = carried(m, "trustregion", "radius")
    _, na, nh, nb = carried_n(m)
    inc = increased(m, nh, nb)
    opts = options_of(ctx, m, "RadiusOptions", [b])
    _, _, want = oracle(ctx, "next_radius", {"radius": h, "rho": acc_field(m, "rho"), "step_length": acc_field(m, "step_length"),
                                             "increased": inc, "options": opts})
    same(rep, "update", w, "radius of the next iteration", b, want, limit=20000)
    ini = options_of(ctx, m, "RadiusOptions", [a]).fields["initial_radius"].term
    rep.ob(a is ini, "start", w, "radius of the first iteration", show(a))
    if ini.op == "call" and ini.args[0] == "option" and len(ini.args[1]) > 3:
        ok, why = positive(magnitudes(ini.args[1][3]))
        if ok is None:
            rep.note(f"not decided: default of the first radius is positive: {why[:150]}")
        else:
            rep.ob(ok, "start", w, "the default of the first radius is positive for every start point", why)


def increased(m, nh, nb):
    return T.tand(noisy(m), T.cmp("<", nh, nb))


def check_C12(ctx, rep):
    rep.rule("update", "the number of evaluations per point follows the simulated rhos, one step at a time, within its limits")
    rep.rule("constant", "without noise the number of evaluations per point never changes")
    rep.rule("used", "the number of the iteration is what new points are evaluated with and what is recorded")
    m = ctx.abstract()
    w = loop_where(ctx, m)
    _, a, h, b = carried_n(m)
    ev = rho_noise(m)
    rep.ob(len(ev) == 1, "update", w, "rhos are simulated once per iteration", f"{len(ev)} sites")
    if len(ev) != 1:
        return
    opts = options_of(ctx, m, "NoiseAdaptationOptions", [b])
    _, _, want = oracle(ctx, "next_n_evals", {"n_evals": h, "rho": acc_field(m, "rho"), "rho_noise": ev[0].data["term"], "options": opts})
    f = noisy(m)
    same(rep, "update", w, "number of evaluations of the next iteration with noise", T.subst(b, {f: T.TRUE}), want)
    same(rep, "constant", w, "number of evaluations of the next iteration without noise", T.subst(b, {f: T.FALSE}), h)
    new = [e for e in m.it.events if e.kind == "evaluate" and e.loops and e.loops[0] == m.loop.id]
    rep.ob(len(new) >= 1, "used", w, f"{len(new)} evaluations inside the loop")
    for e in new:
        ok = all(part_ok(p, h) for p in e.data["parts"])
        rep.ob(ok, "used", w, "new points get the number of evaluations of the iteration", show(e.data["info"]))
    from .record import state_rec
    rec = m.it.tm(state_rec(ctx, m)[2].fields["n_evals_per_point"], m.loop.back)
    rep.ob(rec is h, "used", w, "recorded number of evaluations", show(rec))


def part_ok(p, h):
    if p[0] == "map":
        v = p[4]
        v = v.term if isinstance(v, Val) else v
        if v is h:
            return True
        # what is still missing at points that were evaluated before
        known = {u: T.ZERO for u in T.subterms(v) if u.op == "call" and u.args[0] == "nevals"}
        left = T.subst(v, known)
        if left.op == "max" or (left.op == "call" and str(left.args[0]).split(".")[-1] in ("max", "maximum")):
            return any(u is h for u in T.subterms(left))
        try:
            return eqv.equal(left, h)[0]
        except eqv.TooBig:
            return False
    return True
