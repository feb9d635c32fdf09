"""C22: the number of model points: topping up to the target, dropping excess points, replacing points."""
from .. import terms as T
from ..project import Broken
from ..report import ev_where, show
from ..values import Rec
from .common import same
from .loop import loop_where
from .record import arguments, by_term, joint, region_terms, role_events, state_rec

S = T.sym


def conj(t):
    return set(t.args) if t.op == "and" else set() if t is T.TRUE else {t}


def last(t):
    return str(t.args[0]).split(".")[-1] if t.op == "call" else ""


def option_name(t):
    return T.cval(t.args[1][2]) if t.op == "call" and t.args[0] == "option" else None


def option_of(t, cls, field):
    """Is t the option `field` of the bundle `cls`?"""
    return t.op == "call" and t.args[0] == "option" and t.args[1][1] is T.const(cls) and t.args[1][2] is T.const(field)


# ------------------------------------------------------------- rounding to batches
def rounding(t):
    """Multiples of whole numbers in one spelling: up(n, b) is the smallest multiple of b not below n."""
    for _ in range(8):
        m = {}
        for u in T.subterms(t):
            if last(u) in ("int", "round", "rint") and len(u.args[1]) == 1 and _whole(u.args[1][0]):
                m[u] = u.args[1][0]
                continue
            if last(u) == "ceil" and len(u.args[1]) == 1:
                r = _ratio(u.args[1][0])
                if r is not None:
                    m[u] = T.call("upquot", *r)
            if u.op == "call" and u.args[0] in ("floordiv", "numpy.floor_divide") or last(u) == "floor":
                q = u.args[1] if last(u) != "floor" else _ratio(u.args[1][0])
                if q is not None and len(q) == 2:
                    n, b = q
                    k = T.sub(T.add(n, T.ONE), b)
                    if T.alg_equal(T.add(T.sub(n, b), T.ONE), k):
                        x = T.add(T.sub(n, b), T.ONE)  # (x + b - 1) // b
                        if b not in set(T.subterms(x)):
                            m[u] = T.call("upquot", x, b)
            if u.op == "sum":
                d = T.to_sum(u)
                # -((-n) // b)
                if len(d) == 1:
                    (mono, c), = d.items()
                    for v, e in mono:
                        if v.op == "call" and v.args[0] in ("floordiv", "numpy.floor_divide") and e == 1 and c == -1:
                            n, b = v.args[1]
                            m[v] = T.neg(T.call("upquot", T.neg(n), b))
        if not m:
            return t
        t = T.subst(t, m)
    return t


def _whole(t):
    if T.is_num(t):
        return float(t.args[1]).is_integer()
    if t.op == "sum":
        return all(float(c).is_integer() and all(e > 0 and _whole(v) for v, e in mo) for c, mo in t.args)
    if t.op in ("min", "max"):
        return all(_whole(x) for x in t.args)
    if t.op == "ite":
        return _whole(t.args[1]) and _whole(t.args[2])
    return last(t) in ("upquot", "len", "int", "ceil", "floor", "rint", "round") or t.op == "option"


def _ratio(t):
    """(n, b) with t = n / b."""
    d = T.to_sum(t)
    dens = None
    for mo, c in d.items():
        neg = [v for v, e in mo if e < 0]
        if len(neg) != 1 or [e for v, e in mo if v is neg[0]] != [-1]:
            return None
        if dens is not None and dens is not neg[0]:
            return None
        dens = neg[0]
    if dens is None:
        return None
    return T.mul(t, dens), dens


# --------------------------------------------------------------------------- rule
def check_C22(ctx, rep):
    rep.rule("top-up", "new points fill up to the target, rounded up to full batches; none are added if there are enough")
    rep.rule("sampling", "new points are sampled in the recorded trustregion given the points that are kept")
    rep.rule("include", "all sampled points and all kept points become model points")
    rep.rule("excess", "points above the target are dropped one at a time while the step is too small")
    rep.rule("replace", "while the step stays too small, the configured number of points is replaced, in at most the configured number of trials")
    rep.rule("filters", "points are dropped together with their indices, in the requested number")
    from .filters import check_C15
    from .common import Part
    check_C15(ctx, Part(rep, "filters", ("pairing", "count")))
    m = ctx.abstract()
    w = loop_where(ctx, m)
    _, _, new = state_rec(ctx, m)
    region = region_terms(m, new.fields["trustregion"])
    idx = m.it.tm(new.fields["model_indices"], m.loop.back)
    inner = lambda e: e.loops and e.loops[0] == m.loop.id
    tm = lambda v: m.it.tm(v, m.st)
    flt = [e for e in role_events(m, "filter") if inner(e)]
    if len(flt) != 1:
        raise Broken("the filter is not applied once per iteration")
    flt = flt[0]
    base = conj(flt.guard)
    target = tm(flt.data["kwargs"]["target_size"])
    samples = [e for e in role_events(m, "sample") if inner(e)]
    drops = [e for e in role_events(m, "drop") if inner(e)]
    outer = [e for e in samples if len(e.loops) == 1]
    again = [e for e in samples if len(e.loops) == 2]
    rep.ob(len(outer) == 1 and len(samples) == len(outer) + len(again), "sampling", w, "points are sampled once per iteration and once per trial", f"{len(samples)} call sites")

    def guard_of(e, known=frozenset()):
        return conj(e.guard) - base - set(known)

    # -- sampling
    for e in samples:
        kw = e.data["kwargs"]
        r = next((v for v in (m.it.resolve(v, m.st) for v in arguments(e)) if isinstance(v, Rec) and v.cls.name == "Region"), None)
        rep.ob(r is not None and region_terms(m, r) == region, "sampling", ev_where(ctx, e), "region in which points are sampled", "")
        rep.ob("existing_xs" in kw and "n_points" in kw, "sampling", ev_where(ctx, e), "the sampler gets the existing points and a number", ", ".join(kw))
        if len(e.loops) == 1:
            for x in guard_of(e):
                rep.ob(False, "sampling", ev_where(ctx, e), "points are sampled unconditionally", show(x))
    # -- top-up
    for e in outer:
        kept = T.mk("item", flt.data["term"], T.ZERO)
        n = tm(e.data["kwargs"]["n_points"])
        size = [T.call("len", kept), T.mk("item", T.mk("attr", kept, "shape"), T.ZERO), T.call("len", T.mk("item", flt.data["term"], T.ONE))]
        n = T.subst(n, {x: size[0] for x in size[1:]})
        b = batch_size(m, n)
        need = T.tmax(T.ZERO, T.sub(target, size[0]))
        got, want = rounding(n), T.mul(b, T.call("upquot", need, b)) if b is not None else None
        ok = b is not None and (got is want or T.alg_equal(got, want) or _cases(got, want, T.sub(target, size[0]), b))
        rep.ob(ok, "top-up", ev_where(ctx, e), "number of new points", show(got)[-300:])
        x = tm(e.data["kwargs"]["existing_xs"])
        rep.ob(x is kept, "sampling", ev_where(ctx, e), "existing points given to the sampler are those kept by the filter", show(x))
    # -- inclusion
    for e in samples:
        got = [(i, ev) for i, (xt, ev) in m.it.added.items() if xt is e.data["term"]]
        rep.ob(len(got) == 1, "include", ev_where(ctx, e), "sampled points are stored once", str(len(got)))
    included(ctx, m, rep, w, idx, flt, samples, drops)
    # -- dropping
    ex = [e for e in drops if not any(e.loops == s.loops for s in again)]
    rp = [e for e in drops if e not in ex]
    rep.ob(len(ex) == 1 and len(rp) == 1 and len(again) == 1, "excess", w, "one place where excess points and one where bad points are dropped", f"{len(ex)} and {len(rp)}")
    subx = None
    for v in arguments(m.acc):
        v = m.it.resolve(v, m.st)
        if isinstance(v, Rec) and v.cls.name == "SubproblemResult":
            subx = m.it.tm(v.fields["x"], m.st)
    reach = reachable(m, subx)
    for e in ex:
        if len(e.loops) != 2:
            rep.ob(False, "excess", ev_where(ctx, e), "excess points are dropped in a loop", "")
            continue
        L = m.it.loops[e.loops[1]]
        n = tm(e.data["kwargs"]["n_to_drop"])
        rep.ob(n is T.ONE, "excess", ev_where(ctx, e), "one point is dropped at a time", show(n))
        ix = tm(e.data["kwargs"]["indices"])
        same(rep, "include", ev_where(ctx, e), "dropped points are no longer model points", carried_rest(m, ix), T.mk("item", e.data["term"], T.ONE))
        lits = pass_condition(m, L, e, base)
        size = T.call("len", tm(e.data["kwargs"]["xs"]))
        left = []
        ok_n = ok_s = False
        for c in lits:
            if same_count(c, target, size, tm(e.data["kwargs"]["xs"]), tm(e.data["kwargs"]["indices"])):
                ok_n = True
            elif small_step(m, c, "min_relative_step_keep", L, reach, region):
                ok_s = True
            elif redundant(m, L, c, lits):
                pass
            else:
                left.append(show(c))
        rep.ob(ok_n, "excess", ev_where(ctx, e), "points are dropped only while there are more than the target", "")
        rep.ob(ok_s, "excess", ev_where(ctx, e), "points are dropped only while the relative step is below min_relative_step_keep", "")
        rep.ob(not left, "excess", ev_where(ctx, e), "dropping excess points has no further condition", "; ".join(left))
    for e in again:
        L = m.it.loops[e.loops[1]]
        lits = pass_condition(m, L, e, base)
        brk = [T.tand(*(conj(g) - lits)) for g, _ in L.breaks]
        ok_s = ok_t = False
        left = []
        for c in lits:
            if small_step(m, c, "min_relative_step", L, reach, region):
                ok_s = True
            elif trials(m, c, L, False):
                ok_t = True
            else:
                left.append(show(c))
        for c in brk:
            if T.tnot(c) in lits or c in {T.tnot(x) for x in lits}:
                continue
            if trials(m, c, L, True):
                ok_t = True
            elif small_step_exit(m, c, L, reach, region):
                ok_s = True
            else:
                left.append("leaves the loop if " + show(c))
        if L.kind == "for" and isinstance(L.iter, T.Term) and last(L.iter) == "range" and any(option_of(u, "StagnationOptions", "max_trials") for u in L.iter.args[1]):
            ok_t = True
        rep.ob(ok_s, "replace", ev_where(ctx, e), "points are replaced only while the relative step is below min_relative_step", "")
        rep.ob(ok_t, "replace", ev_where(ctx, e), "at most max_trials passes", "; ".join(show(c) for c in brk))
        rep.ob(not left, "replace", ev_where(ctx, e), "replacing points has no further condition", "; ".join(left))
        n = tm(e.data["kwargs"]["n_points"])
        rep.ob(option_of(n, "StagnationOptions", "sample_increment"), "replace", ev_where(ctx, e), "number of new points per pass", show(n))
        for d in rp:
            k = tm(d.data["kwargs"]["n_to_drop"])
            rep.ob(option_of(k, "StagnationOptions", "sample_increment"), "replace", ev_where(ctx, d), "number of dropped points per pass", show(k))
            xs = tm(d.data["kwargs"]["xs"])
            g = guard_of(d, guard_of(e))
            on = [c for c in g if any(option_of(u, "StagnationOptions", "drop") for u in T.subterms(c)) and c.op != "cmp"]
            enough = [c for c in g if c.op == "cmp" and c.args[0] == "<" and c.args[1] is k and c.args[2] in sizes(xs, tm(d.data["kwargs"]["indices"]))]
            rest = [show(c) for c in g if c not in on and c not in enough]
            rep.ob(len(on) == 1 and len(enough) == 1 and not rest, "replace", ev_where(ctx, d),
                   "points are dropped exactly if dropping is enabled and more points remain than are dropped", "; ".join(rest) or f"{len(on)} {len(enough)}")
            rep.ob(all(option_of(strip_bool(c), "StagnationOptions", "drop") for c in on), "replace", ev_where(ctx, d), "dropping follows the option", "")
            x = tm(e.data["kwargs"]["existing_xs"])
            want = T.ite(T.tand(*g), T.mk("item", d.data["term"], T.ZERO), xs)
            same(rep, "sampling", ev_where(ctx, e), "existing points given to the sampler are those that were not dropped", x, want)
            ix = tm(d.data["kwargs"]["indices"])
            want = T.ite(T.tand(*g), T.mk("item", d.data["term"], T.ONE), ix)
            same(rep, "include", ev_where(ctx, d), "dropped points are no longer model points", carried_rest(m, ix), want)


def strip_bool(c):
    while c.op in ("bool", "truth") or c.op == "call" and last(c) in ("bool", "truth"):
        c = c.args[0] if c.op != "call" else c.args[1][0]
    return c


def sizes(x, i=None):
    out = [T.call("len", x), T.mk("item", T.mk("attr", x, "shape"), T.ZERO)]
    if i is not None:
        out += [T.call("len", i), T.mk("attr", i, "size"), T.mk("item", T.mk("attr", i, "shape"), T.ZERO)]
    return out


def same_count(c, target, size, x, i):
    return c.op == "cmp" and c.args[0] == "<" and c.args[1] is target and c.args[2] in sizes(x, i)


def batch_size(m, n):
    """The batch size: the number by which the count of new points is rounded."""
    for u in T.subterms(n):
        if last(u) == "ceil":
            r = _ratio(u.args[1][0])
            if r is not None:
                return r[1] if _is_batch(r[1]) else None
        if u.op == "call" and u.args[0] in ("floordiv", "numpy.floor_divide"):
            return u.args[1][1] if _is_batch(u.args[1][1]) else None
    return None


def _is_batch(b):
    return S("batch_size") in set(T.subterms(b))


def _cases(got, want, need, b):
    """Equality by cases on whether points are needed."""
    z, p = T.cmp("<", T.ZERO, need), T.cmp("<=", need, T.ZERO)
    for f in ({z: True, p: False}, {z: False, p: True}):
        g = simplify(got, f, need)
        v = simplify(want, f, need)
        if not (g is v or T.alg_equal(g, v)):
            return False
    return True


def simplify(t, f, need):
    m = {T.tmax(T.ZERO, need): need if f[T.cmp("<", T.ZERO, need)] else T.ZERO}
    t = T.subst(t, m)
    for _ in range(4):
        m = {}
        for u in T.subterms(t):
            if u.op == "ite":
                r = T.decide(u.args[0], f)
                if r is not None:
                    m[u] = u.args[1] if r else u.args[2]
            if u.op == "call" and u.args[0] == "upquot" and u.args[1][0] is T.ZERO:
                m[u] = T.ZERO
        if not m:
            break
        t = T.subst(t, m)
    return t


def reachable(m, t):
    """Loop-carried values from which t stems."""
    out, todo = set(), [t]
    while todo:
        for u in T.subterms(todo.pop()):
            if u in m.flow.phi and u not in out:
                out.add(u)
                todo += [x for x in m.flow.phi[u][:2] if x is not None]
    return out


def pass_condition(m, L, e, base):
    out = conj(e.guard) - base
    if L.kind == "while":
        out |= conj(L.test)
    return out


def is_step(m, s, L, reach, region):
    """Is s the relative length of the current step (by induction over the loop)?"""
    def eq(s, x):
        for c in centers(m, region):
            for d in (T.sub(x, c), T.sub(c, x)):
                if T.alg_equal(s, T.div(T.call("numpy.linalg.norm", d), region["radius"])):
                    return True
        return False

    for p in reach:
        if m.flow.phi[p][2] is not L:
            continue
        if eq(s, p):
            return True

        def leaf(ts, facts):
            s, x = ts
            e = by_term(m).get(x.args[0]) if x.op == "attr" and x.args[1] == "x" else None
            if e is None or e.data["role"] != "solve":
                return "not a solution"
            return None if eq(s, x) else "other step"
        try:
            if not joint(m, (s, p), leaf):
                return True
        except Broken:
            continue
    return False


def centers(m, region):
    """The incumbent is the centre of the trustregion."""
    out = [region["center"]]
    for path, (a, h, b) in m.loop.header.items():
        if path[-1] == "x" and path[0] == "var":
            t = m.it.tm(h, m.loop.head)
            out.append(t)
    return out


def flip(c):
    """not (a < b) as b <= a (no NaN)."""
    if c.op == "not" and c.args[0].op == "cmp" and c.args[0].args[0] in ("<", "<="):
        op, a, b = c.args[0].args
        return T.cmp("<=" if op == "<" else "<", b, a)
    return c


def small_step(m, c, name, L, reach, region):
    c = flip(c)
    if c.op != "cmp" or c.args[0] != "<" or not option_of(c.args[2], "StagnationOptions", name):
        # relative lengths compared without division
        return False
    return is_step(m, c.args[1], L, reach, region)


def small_step_exit(m, c, L, reach, region):
    n = T.tnot(c)
    return small_step(m, n, "min_relative_step", L, reach, region)


def redundant(m, L, c, lits):
    """The condition holds anyway when the loop is entered."""
    f = {}
    mp = {t: p[0] for t, p in m.flow.phi.items() if p[2] is L and p[0] is not None}
    for x in lits:
        if x is not c:
            T.split_fact(T.subst(x, mp), True, f)
    return T.decide(c, f) is True


def trials(m, c, L, leaving):
    """Does c count the passes of L against max_trials?"""
    c = flip(c)
    if c.op != "cmp":
        return False
    op, a, b = c.args
    lim = [x for x in (a, b) if option_of(x, "StagnationOptions", "max_trials")]
    if len(lim) != 1:
        return False
    k = b if lim[0] is a else a
    for p in T.subterms(k):
        if p in m.flow.phi and m.flow.phi[p][2] is L:
            ini, back, _ = m.flow.phi[p]
            if T.is_num(ini) and back is not None and T.alg_equal(back, T.add(p, T.ONE)):
                done = T.sub(p, ini)  # passes before this one
                if leaving:
                    # leaves after pass number done + 1 once it reaches the limit
                    return op == "<=" and a is lim[0] and T.alg_equal(k, T.add(done, T.ONE))
                return op == "<" and b is lim[0] and T.alg_equal(k, done)
    return False


WRAP = ("hstack", "concatenate", "append", "atleast_1d", "array", "asarray", "r_", "unique", "concat")


def parts(t):
    if t.op == "call" and last(t) in WRAP or t.op == "call" and t.args[0] == "hstack":
        out = []
        for a in t.args[1]:
            for x in (a.args if a.op in ("tuple", "list") else (a,)):
                out += parts(x)
        return out
    return [t]


def carried_rest(m, i):
    """What remains of the carried indices i in the next pass, without new ones."""
    if i not in m.flow.phi or m.flow.phi[i][1] is None:
        return i
    rest = [p for p in parts(m.flow.phi[i][1]) if p not in m.it.added]
    return rest[0] if len(rest) == 1 else T.mk("tuple", *rest)


def included(ctx, m, rep, w, idx, flt, samples, drops):
    """The recorded points are the kept ones and all sampled ones."""
    bt = by_term(m)
    stored = {}
    for i, (xt, ev) in m.it.added.items():
        stored[i] = ev

    n = [0]

    def walk(t, facts, need):
        """need: indices of the points sampled after this value was formed (already found)."""
        def leaf(ts, facts):
            n[0] += 1
            todo = parts(ts[0])
            new = [p for p in todo if p in stored]
            rest = [p for p in todo if p not in stored]
            if len(rest) != 1 and not (len(rest) == 0):
                return f"{show(ts[0])[:120]} is not made of one set of kept points and new ones"
            for r in rest:
                if r.op == "ite" or r in m.flow.phi and m.flow.phi[r][2] is not m.loop:
                    x = joint(m, (r,), leaf, dict(facts), hyp)
                    if x:
                        return x[0]
                elif r.op == "item" and r.args[1] is T.ONE and r.args[0] in bt and bt[r.args[0]].data["role"] == "drop":
                    e = bt[r.args[0]]
                    x = joint(m, (m.it.tm(e.data["kwargs"]["indices"], m.st),), leaf, None, hyp)
                    if x:
                        return x[0]
                elif r.op == "item" and r.args[1] is T.ONE and r.args[0] is flt.data["term"]:
                    pass
                else:
                    return f"{show(r)[:120]} are not the kept points"
            found.update(new)
            return None
        hyp = set()
        return joint(m, (t,), leaf, facts, hyp)

    found = set()
    bad = walk(idx, None, None)
    rep.ob(not bad and n[0] > 0, "include", w, "recorded points consist of kept and new points", "; ".join(sorted(set(bad)))[:400] or f"{n[0]} cases")
    for e in samples:
        mine = [i for i, (xt, ev) in m.it.added.items() if xt is e.data["term"]]
        rep.ob(bool(mine) and all(i in found for i in mine), "include", ev_where(ctx, e), "the sampled points become model points", "")
    # within a trial, the points of this trial are part of the model points that leave it
    for e in samples:
        mine = [i for i, (xt, ev) in m.it.added.items() if xt is e.data["term"]]
        L = m.it.loops[e.loops[-1]]
        if L is m.loop:
            continue
        carried = [t for t, p in m.flow.phi.items() if p[2] is L and p[1] is not None and t in reachable(m, idx)]
        ok = any(all(i in parts(m.flow.phi[t][1]) for i in mine) for t in carried)
        rep.ob(ok, "include", ev_where(ctx, e), "the points of a trial are carried on", "")
