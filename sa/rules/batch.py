"""C25: the batch of the acceptance step is filled with line search and speculative points."""
from .. import lemma, models, terms as T
from ..interp import elem
from ..project import Broken
from ..report import show
from ..values import Hooked, Val
from .accept import acceptance
from .common import component_of, integral, oracle, region_rec, same

S = T.sym
B = S("batch_size")
SAMPLE = ("trustregion", "n_points", "existing_xs", "rng")


def name(t):
    return str(t.args[0]).split(".")[-1] if t.op == "call" else ""


K = S("row")
COL = {("::", None), (":", None)}


class Lines:
    """Arrays whose rows depend on the row number only, as the number of rows and the content of row k.

    A term vec(n, expr) or col(n, expr) stands for them (a vector; a column or an array of points).
    Stacks of arrays of points become vstack with the arrays in order.
    """

    def __init__(self):
        self.memo = {}

    def do(self, t):
        r = self.memo.get(t)
        if r is None:
            m = {c: self.do(c) for c in T.children(t)}
            if any(k is not v for k, v in m.items()):
                t2 = shallow(t, m)
            else:
                t2 = t
            r = self.memo[t] = self.rule(t2)
        return r

    def rule(self, t):
        n = name(t)
        if t.op == "call":
            a, kw = list(t.args[1]), dict(t.args[2])
            if n == "arange" and 1 <= len(a) <= 2:
                lo, hi = (T.ZERO, a[0]) if len(a) == 1 else a
                return line("vec", T.sub(hi, lo), T.add(lo, K))
            if n in ("pow", "power", "float_power", "exp2"):
                a = ([T.const(2)] + a) if n == "exp2" else a
                a = [T.const(int(x.args[0])) if x.op == "const" and isinstance(x.args[0], float) and x.args[0].is_integer() else x for x in a]
                return self.elementwise(T.call("pow", *a), a, lambda *b: T.call("pow", *b))
            if n == "reshape" and name(a[0]) == "vec" and column(a[1], a[0].args[1][0]):
                return line("col", *a[0].args[1])
            if n == "expand_dims" and name(a[0]) == "vec" and (a[1:] + [kw.get("axis")])[0] in (T.ONE, T.const(-1)):
                return line("col", *a[0].args[1])
            if n == "outer" and name(a[0]) == "vec":
                return line("col", a[0].args[1][0], T.mul(a[0].args[1][1], a[1]))
            if n in ("array", "asarray", "asfarray") and name(a[0]) in ("vec", "col"):
                return a[0]
            if n in ("maximum", "minimum", "max", "min") and len(a) == 2:
                op = T.tmax if n.startswith("max") else T.tmin
                return self.elementwise(t, a, op)
            if n == "clip" and len(a) == 3:
                return self.elementwise(t, a, lambda x, lo, hi: T.tmin(hi, T.tmax(lo, x)))
            if n == "len":
                return dist(a[0], lambda x: x.args[1][0] if name(x) in ("vec", "col") else T.call(t.args[0], x))
            if n in ("vstack", "concat0"):
                return self.stack(t, a)
            return t
        if t.op == "item":
            x, i = T.children(t)[:2]
            if name(x) == "vec" and i.op == "tuple" and len(i.args) == 2 and i.args[1] is T.NONE:
                return line("col", *x.args[1])
            if i is T.ZERO and name(x) == "shape":
                return self.rule(T.call("len", x.args[1][0]))
            return t
        if t.op in ("max", "min"):
            return self.elementwise(t, list(t.args), T.tmax if t.op == "max" else T.tmin)
        if t.op in ("sum", "prod", "mono"):
            parts = {u for c, m in t.args for u, e in m} if t.op == "sum" else set(T.children(t))
            vs = {u for u in parts if name(u) in ("vec", "col")}
            if not vs or len({u.args[1][0] for u in vs}) != 1 or len({name(u) for u in vs}) != 1:
                return t
            u = next(iter(vs))
            return line(name(u), u.args[1][0], shallow(t, {v: v.args[1][1] for v in vs}))
        if t.op == "call":
            return t
        return t

    def elementwise(self, t, args, op):
        vs = [u for u in args if name(u) in ("vec", "col")]
        if not vs or len({u.args[1][0] for u in vs}) != 1 or len({name(u) for u in vs}) != 1:
            return t
        out = args[0] if args[0] not in vs else args[0].args[1][1]
        rest = [u if u not in vs else u.args[1][1] for u in args[1:]]
        if len(rest) == 1:
            out = op(out, rest[0])
        elif name(t) == "clip":
            out = op(out, *rest)
        else:
            for r in rest:
                out = op(out, r)
        return line(name(vs[0]), vs[0].args[1][0], out)

    def stack(self, t, a):
        if not a:
            return t
        if len(a) == 2 and a[1] is T.ZERO:
            a = a[:1]
        if len(a) == 1 or (len(a) > 1 and a[0].op in ("list", "tuple") or name(a[0]) == "concatlist"):
            alts = listed(a[0])
        else:
            alts = [(T.TRUE, a)]
        if alts is None:
            return t
        out = None
        for c, xs in reversed(alts):
            v = xs[0] if len(xs) == 1 else T.call("vstack", *xs)
            out = v if out is None else T.ite(c, v, out)
        return out


def listed(t):
    """Lists of arrays with the conditions under which they are the list."""
    if t.op in ("list", "tuple"):
        return [(T.TRUE, list(t.args))]
    if t.op == "ite":
        c, a, b = t.args
        a, b = listed(a), listed(b)
        if a is None or b is None:
            return None
        return [(T.tand(c, x), xs) for x, xs in a] + [(T.tand(T.tnot(c), x), xs) for x, xs in b]
    if name(t) == "concatlist" or t.op == "concatlist":
        alts = [(T.TRUE, [])]
        for p in (t.args[1] if t.op == "call" else t.args):
            q = listed(p)
            if q is None:
                return None
            alts = [(T.tand(c, d), xs + ys) for c, xs in alts for d, ys in q]
        return [(c, xs) for c, xs in alts if c is not T.FALSE]
    return None


def shallow(t, m):
    """t with its children replaced."""
    return T.subst(t, m)


def line(kind, n, expr):
    return T.call(kind, n, expr)


def column(s, n):
    return s.op in ("tuple", "list") and len(s.args) == 2 and s.args[1] is T.ONE and (s.args[0] is T.const(-1) or s.args[0] is n)


def dist(t, f):
    if t.op == "ite":
        return T.ite(t.args[0], dist(t.args[1], f), dist(t.args[2], f))
    return f(t)


LARGE = 6


def decided(t):
    """Comparisons, minima and maxima that do not depend on how large a batch of at least LARGE points is."""
    m = {}
    for u in T.subterms(t):
        if u.op in ("min", "max"):
            best = None
            for a in u.args:
                if all(sign(T.sub(a, b)) in ((-1, 0) if u.op == "min" else (1, 0)) for b in u.args):
                    best = a
            if best is not None:
                m[u] = best
    return T.subst(t, m) if m else t


def sign(d):
    """Sign of a term that is linear in the batch size, over all large batches; None if it changes."""
    try:
        lo, hi = value(d, LARGE), value(d, LARGE + 1)
        if value(d, LARGE + 2) - hi != hi - lo:
            return None
    except ValueError:
        return None
    slope = hi - lo
    if slope == 0 or lo * slope > 0:
        return (lo > 0) - (lo < 0)
    return None


def plain(t, size):
    """Closeness, stacks and lines in one spelling, for batches of one size or (size None) all large batches."""
    if size is not None:
        t = T.subst(t, {B: T.const(size)})
    for _ in range(4):
        m = {}
        for u in T.subterms(t):
            n = name(u)
            if n == "isclose":
                k = dict(u.args[2])
                a, b = u.args[1][:2]
                rtol = k.get("rtol", u.args[1][2] if len(u.args[1]) > 2 else T.const(1e-5))
                atol = k.get("atol", u.args[1][3] if len(u.args[1]) > 3 else T.const(1e-8))
                m[u] = T.cmp("<=", T.call("numpy.abs", T.sub(a, b)), T.add(atol, T.mul(rtol, T.call("numpy.abs", b))))
            elif n in ("abs", "absolute", "fabs") and u.args[1][0] is S("tr.radius"):
                m[u] = u.args[1][0]
            elif n == "abs":
                a = u.args[1][0]
                c = T.neg(a)
                if str(c) < str(a):
                    m[u] = T.call(u.args[0], c)
        new = T.subst(t, m) if m else t
        new = Lines().do(decided(new))
        if new is t:
            break
        t = new
    return T.subst(t, integral(t))


def impossible(d, s, path):
    """A sign that a term linear in the batch size does not have for large batches."""
    if isinstance(s, bool) or not isinstance(d, T.Term):
        return False
    k = sign(d)
    return k is not None and s != k


def value(d, b):
    tot = 0
    for m, c in T.to_sum(d).items():
        for a, e in m:
            if a is not B:
                raise ValueError
            c = c * b ** e
        tot += c
    return tot


def sampled(it, st, args, kwargs):
    b = dict(zip(SAMPLE, args))
    b.update(kwargs)
    return T.call("sampled", **{k: it.tm(v, st) for k, v in b.items()})


def check_C25(ctx, rep):
    rep.rule("points", "points on the line if the candidate is at the border, speculative points for the rest of the batch")
    rep.rule("existing", "speculative points take the points that are already in their region into account")
    rep.rule("evaluated", "the candidate and all additional points are evaluated once, together")
    reg = component_of(ctx, "get_acceptance_decider").registry
    if "classic" in reg:
        alone(ctx, rep, "classic", {})
    found = 0
    for label in sorted(reg):
        if "batch_size" not in lemma.params(reg[label]):
            continue
        found += 1
        one(ctx, rep, label)
        alone(ctx, rep, label, {B: T.ONE})
    if not found:
        raise Broken("no acceptance rule takes the batch size")


def alone(ctx, rep, label, facts):
    """The candidate is the only new point and evaluated once."""
    it, st, r, f = acceptance(ctx, label)
    w = ctx.where(f.name)
    text = f"[{label}{', batch size one' if facts else ''}]"
    on = [(e, T.subst(e.guard, facts)) for e in it.events if e.kind in ("evaluate", "add_xs")]
    on = [(e, g) for e, g in on if g is not T.FALSE]
    new = [(i, T.subst(x, facts)) for i, (x, e) in it.added.items() if any(o is e for o, g in on)]
    if facts and len(new) > 1:
        rep.note(f"{w}: {text} not decided, {len(new)} additions")
        return
    rep.ob([x for i, x in new] == [S("sub.x")], "evaluated", w, f"{text} the candidate is the only new point", f"{len(new)} additions")
    ev = [e for e, g in on if e.kind == "evaluate"]
    rep.ob(len(ev) == 1, "evaluated", w, f"{text} one evaluation request", f"{len(ev)} sites")
    for e in ev:
        info = T.subst(e.data["info"], facts)
        p = info.args if info.op == "dict" else ()
        rep.ob(len(new) == 1 and len(p) == 1 and p[0].op == "kv" and p[0].args[0] is new[0][0] and p[0].args[1] is T.ONE, "evaluated", w,
               f"{text} the candidate is evaluated once", show(info))


def above_one(ts):
    """Comparisons of the batch size with numbers that are decided if it is above one."""
    out = {T.cmp("==", B, T.ONE): T.FALSE}
    for u in {u for t in ts if isinstance(t, T.Term) for u in T.subterms(t) if u.op == "cmp" and B in u.args[1:]}:
        left = u.args[1] is B
        k = u.args[2 if left else 1]
        if not T.is_num(k):
            continue
        k, op = T.cval(k), u.args[0]
        low = {"<": 2 < k if left else k < 2, "<=": 2 <= k if left else k <= 2, "==": k == 2}.get(op)
        if low is None:
            continue
        if op == "==" and k < 2 or op != "==" and low != left:
            out[u] = T.const(low)
    return out


def one(ctx, rep, label):
    it, st, r, f = acceptance(ctx, label)
    w = ctx.where(f.name)
    several = above_one([v for e in it.events if e.kind in ("evaluate", "add_xs", "sample") for v in (e.guard, e.data.get("info"))] + [x for x, e in it.added.values()])
    added = [(i, T.subst(x, several), e) for i, (x, e) in it.added.items() if T.subst(e.guard, several) is not T.FALSE]
    cand = [i for i, x, e in added if x is S("sub.x")]
    more = [(i, x) for i, x, e in added if x is not S("sub.x")]
    if not rep.ob(len(cand) == 1 and len(more) == 1, "points", w, f"[{label}] the candidate and one array of points are added", f"{len(cand)} and {len(more)}"):
        return
    ev = [e for e in it.events if e.kind == "evaluate" and T.subst(e.guard, several) is not T.FALSE]
    rep.ob(len(ev) == 1 and T.subst(ev[0].guard, several) is T.TRUE, "evaluated", w, f"[{label}] one evaluation request", f"{len(ev)} sites")
    for e in ev:
        info = T.subst(e.data["info"], several)
        parts = list(info.args) if info.op == "dict" else [info]
        ok = {"cand": 0, "more": 0, "bad": 0}
        for p in parts:
            if p.op == "kv" and p.args[0] is cand[0] and p.args[1] is T.ONE:
                ok["cand"] += 1
            elif p.op == "dmap" and p.args[0] is more[0][0] and p.args[2] is elem(more[0][0]) and p.args[3] is T.ONE and p.args[4] is T.TRUE:
                ok["more"] += 1
            else:
                ok["bad"] += 1
        rep.ob(ok == {"cand": 1, "more": 1, "bad": 0}, "evaluated", w, f"[{label}] every point of the batch is evaluated once", show(info))
    draws = {}
    for e in it.events:
        if e.kind == "sample":
            draws[e.data["result"]] = sampled(it, st, e.data["args"], e.data["kwargs"])
    got = T.subst(T.subst(more[0][1], draws), several)
    near = {u for d in draws.values() for u in T.subterms(T.subst(d, several)) if u.op == "call" and u.args[0] == "inregion"}
    if not rep.ob(len(near) == 1, "existing", w, f"[{label}] existing points of one region", f"{len(near)} regions"):
        return
    n = near.pop()
    rep.ob(n.args[1][0] is S("sub.x") and n.args[1][1] is T.mul(S("tr.radius"), S("speculative_sampling_radius_factor")), "existing", w,
           f"[{label}] existing points are those of the speculative region", show(n))
    nx = n.args[1][2]
    later = [e.data["nx"] for e in it.events if e.kind == "add_xs" and T.subst(e.guard, several) is not T.FALSE and e.data["idx"] is cand[0]]
    rep.ob(all(nx is not b for b in later), "existing", w, f"[{label}] the candidate is one of the existing points", show(n))

    def make(i, s):
        return {"trustregion": region_rec(i, s, "tr"),
                "sample": Hooked("sample", lambda interp, st, args, kwargs, node: Val(sampled(interp, st, args, kwargs)))}
    _, _, want = oracle(ctx, "extra_points", {"start": S("state.x"), "candidate": S("sub.x"), "batch_size": B, "existing": T.call("xs", n),
                                              "radius_factor": S("speculative_sampling_radius_factor"), "rng": S("rng")}, make=make, hooks=models.main_hooks())
    for size in list(range(2, LARGE)) + [None]:
        text = f"[{label}] additional points of a batch of {size}" if size else f"[{label}] additional points of a batch of {LARGE} or more"
        same(rep, "points", w, text, plain(got, size), plain(want, size), impossible=impossible, limit=60000)
