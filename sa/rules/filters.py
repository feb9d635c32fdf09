"""C15: filters select points together with their indices, drop as many as needed and never the incumbent."""
from .. import terms as T
from ..project import Broken
from ..proof import Flow, contradictory, first_ite, simp, with_fact
from ..report import show
from ..values import Val
from .common import components_of, component_of, subject

S = T.sym
X, I = S("xs"), S("indices")
SX, SI, SR = S("state.x"), S("state.index"), S("state.trustregion.radius")
NLEN = T.call("len", X)


def short(t):
    return str(t.args[0]).split(".")[-1] if t.op == "call" else ""


def kw(t, k, pos=None):
    for a, b in t.args[2]:
        if a == k:
            return b
    if pos is not None and len(t.args[1]) > pos:
        return t.args[1][pos]
    return None


# ------------------------------------------------------------------ selections
def selection(t):
    """(source, what, kind) if t selects rows of an array: numpy.delete(a, k) or a[s]."""
    if short(t) == "delete":
        ax = kw(t, "axis", 2)
        if len(t.args[1]) < 2 and kw(t, "obj") is None:
            return None
        if ax in (None, T.NONE, T.ZERO):
            return kw(t, "arr", 0), kw(t, "obj", 1), ("delete", ax in (None, T.NONE))
    if short(t) in ("take", "compress") and len(t.args[1]) >= 2:
        ax = kw(t, "axis", 2)
        if ax in (None, T.NONE, T.ZERO):
            a, s = (t.args[1][0], t.args[1][1]) if short(t) == "take" else (t.args[1][1], t.args[1][0])
            return a, s, ("item", ax in (None, T.NONE))
    if t.op == "item":
        s = t.args[1]
        if s.op == "tuple":
            if len(s.args) == 2 and s.args[1].op == "slice" and all(x is T.NONE for x in s.args[1].args):
                s = s.args[0]
            else:
                return None
        return t.args[0], s, ("item", False)
    return None


def strip(t):
    """Conversions that keep the entries."""
    while short(t) in ("array", "asarray", "atleast_1d", "list", "copy") and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def row_of(t):
    """The vector of which t is the only row."""
    n = short(t)
    if n == "reshape":
        a = t.args[1]
        sh = a[1] if len(a) == 2 else T.mk("tuple", *a[1:])
        if sh.op in ("tuple", "list") and len(sh.args) == 2 and T.is_num(sh.args[0]) and sh.args[0].args[1] == 1 \
                and not (T.is_num(sh.args[1]) and sh.args[1].args[1] != -1):
            return a[0]
    if n in ("atleast_2d", "expand_dims") or n in ("array", "asarray", "vstack", "row_stack", "stack") and t.args[1] \
            and t.args[1][0].op in ("list", "tuple") and len(t.args[1][0].args) == 1:
        if n == "expand_dims" and kw(t, "axis", 1) is not T.ZERO:
            return None
        a = t.args[1][0]
        return a.args[0] if n not in ("atleast_2d", "expand_dims") else a
    if t.op == "item" and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and t.args[1].args[0] is T.NONE:
        return t.args[0]
    if t.op == "item" and t.args[1] is T.NONE:
        return t.args[0]
    if t.op == "list" and len(t.args) == 1:
        return t.args[0]
    return None


class Loops:
    """Values carried by the loops of one analysis."""

    def __init__(self, it, guard=None):
        self.it = it
        self.flow = Flow(it)
        self.want = None
        self.entry = {}  # facts under which a loop is entered
        self.phi = {t: (a if a is None else sized(a), b if b is None else sized(b), l) for t, (a, b, l) in self.flow.phi.items()}
        self.test = {l: sized(l.test) for l in it.loops.values() if isinstance(l.test, T.Term)}

    def loop_of(self, *ts):
        ls = [self.phi[t][2] for t in ts if t in self.phi]
        return max(ls, key=lambda l: l.id) if ls else None

    def exit_facts(self, L, facts):
        """What holds after the loop L was left (None: cannot happen)."""
        if L.kind != "while":
            return facts
        return with_fact(facts, T.tor(T.tnot(self.test[L]), *[sized(g) for g, _ in L.breaks]), True)

    def inside(self, L, facts=None):
        """What holds at the end of an iteration of L about the values at its start."""
        f = dict(facts or {})
        if L.kind == "while":
            f = with_fact(f, self.test[L], True)
        if isinstance(L.back_guard, T.Term):
            f = with_fact(f, sized(L.back_guard), True)
        return f

    def of(self, L):
        return {t: p for t, p in self.phi.items() if p[2] is L}


def split(ts, facts, leaf, depth=0):
    """leaf(ts, facts) for all alternatives of the terms (no induction)."""
    if depth > 60:
        raise Broken("case analysis too deep")
    ts = tuple(simp(t, facts) for t in ts)
    c = first_ite(*ts)
    if c is None:
        r = leaf(ts, facts)
        return [r] if r else []
    out = []
    for v in (True, False):
        f = settle(with_fact(facts, c, v))
        if f is not None:
            out += split(ts, f, leaf, depth + 1)
    return out


def settle(f):
    """Facts with decided alternatives inside them resolved; None if they contradict each other."""
    for _ in range(4):
        new = None
        for c, v in f.items():
            d = resolve(c, {k: w for k, w in f.items() if k is not c})
            if d is c:
                continue
            r = T.decide(d, {k: w for k, w in f.items() if k is not c})
            if r is not None and r is not v:
                return None
            if d not in f and r is None:
                new = with_fact(f, d, v)
                break
        if new is None:
            break
        f = new
    return None if contradictory(f) else f


def resolve(t, f):
    m = {}
    for u in T.subterms(t):
        if u.op == "ite":
            r = T.decide(u.args[0], f)
            if r is not None:
                m[u] = u.args[1] if r else u.args[2]
    return T.subst(t, m) if m else t


# --------------------------------------------------------------------- pairing
def paired(lp, x, i, facts=None, hyp=None, depth=0, site=None):
    """Do the rows of x belong to the entries of i?  List of complaints."""
    hyp = set() if hyp is None else hyp
    if depth > 40:
        raise Broken("selection too deep")

    def leaf(ts, facts):
        x, i = ts
        i = strip(i) if i is not I else i
        if x is X and i is I:
            return None
        if strip(x) is X and i is I:
            return None
        r = row_of(x)
        if r is SX and (i.op in ("list", "tuple") and i.args == (SI,) or i is SI and ts[1] is not i):
            return None
        a, b = selection(x), selection(i)
        if a and b:
            if b[2][0] != a[2][0] or a[2][1]:
                return f"points and indices are selected differently: {show(x)} / {show(i)}"
            if not _same_pick(a[1], b[1], facts):
                return f"points are selected by {show(a[1])}, indices by {show(b[1])}"
            if site is not None and a[2][0] == "delete":
                r = site(a[0], b[0], a[1], facts)
                if r:
                    return r
            r = paired(lp, a[0], b[0], facts, hyp, depth + 1, site)
            return r[0] if r else None
        L = lp.loop_of(x, i)
        if L is not None:
            if ts in hyp:
                return None
            hyp.add(ts)
            out = []
            for k in (0, 1):
                new = [lp.phi[t][k] if t in lp.phi and lp.phi[t][2] is L else t for t in ts]
                if any(n is None for n in new):
                    return "points or indices are not defined on every path of a loop"
                f = facts if k == 0 else {}
                if k == 0:
                    lp.entry[L] = facts
                    if L.kind == "while":
                        m = {u: p[0] for u, p in lp.of(L).items() if p[0] is not None}
                        lp.entry[L] = with_fact(facts, T.subst(lp.test[L], m), True)
                else:
                    f = lp.inside(L)
                out += paired(lp, *new, f, hyp, depth + 1, site)
            return out[0] if out else None
        return f"rows {show(x)} do not belong to indices {show(i)}"

    return split((x, i), facts or {}, leaf)


def _same_pick(a, b, facts):
    if a is b:
        return True
    return not split((a, b), facts, lambda ts, f: None if ts[0] is ts[1] or T.alg_equal(*ts) else "different")


# ---------------------------------------------------------------------- counts
def dropped(lp, x, facts, depth=0):
    """Number of points dropped on the way to x: alternatives [(count, facts)]; None if not a chain of deletions."""
    if depth > 40:
        raise Broken("selection too deep")
    out = []

    def leaf(ts, facts):
        t = ts[0]
        if strip(t) is X:
            out.append((T.ZERO, facts))
            return None
        s = selection(t)
        if s and s[2][0] == "delete":
            if not _one(s[1]):
                return f"{show(s[1])} is not a single position"
            r = dropped(lp, s[0], facts, depth + 1)
            out.extend((T.add(c, T.ONE), f) for c, f in r)
            return None
        if t in lp.phi:
            out.extend(_phi_count(lp, t, facts, depth))
            return None
        return f"not a chain of deletions: {show(t)}"

    bad = split((x,), facts, leaf)
    if bad:
        raise Undecided(bad[0])
    return out


class Undecided(Exception):
    pass


def _one(k):
    if k.op == "ite":
        return _one(k.args[1]) and _one(k.args[2])
    return short(k) in ("argmax", "argmin", "int") or k.op == "item" or T.is_num(k) or k.op == "phi" or k.op == "sum"


def _phi_count(lp, t, facts, depth):
    a, b, L = lp.phi[t]
    init = dropped(lp, a, facts, depth + 1)
    if b is None:
        return init
    # deletions per iteration, along with what the iteration does to the other carried values
    steps = _steps(lp, L, t)
    for c, (ca, cb, _) in lp.of(L).items():
        if c is t or cb is None:
            continue
        sign = 0
        for s in (1, -1):
            if all(not split((cb,), f, lambda ts, ff: None if T.alg_equal(T.mul(T.const(s), T.sub(ts[0], c)), d) else "x") for d, f in steps):
                sign = s
                break
        if sign:
            out = []
            for n, f in init:
                def leaf(ts, ff, n=n):
                    out.append((T.add(n, T.mul(T.const(sign), T.sub(c, ts[0]))), ff))
                split((ca,), f, leaf)
            return out
    # loops over a range
    r = _range(L)
    if r is not None and all(T.alg_equal(d, T.ONE) for d, _ in steps):
        return [(T.add(n, T.tmax(T.ZERO, r)), f) for n, f in init]
    # the loop is controlled by the number of rows itself
    if all(T.alg_equal(d, T.ONE) for d, _ in steps):
        u = T.call("ndropped", t)
        return [(T.add(n, u), f) for n, f in init]
    raise Undecided(f"the number of dropped points is not tied to a counter of loop {L.id}")


def _counter(c, cb):
    return T.is_num(T.sub(cb, c)) or cb.op == "ite"


def _steps(lp, L, t):
    """Deletions of one iteration: [(count, facts)] starting from the carried value t."""
    b = lp.phi[t][1]
    out = []

    def go(x, facts, n, depth=0):
        if depth > 40:
            raise Broken("selection too deep")

        def leaf(ts, f):
            x = ts[0]
            if x is t:
                out.append((n, f))
                return None
            s = selection(x)
            if s and s[2][0] == "delete" and _one(s[1]):
                go(s[0], f, T.add(n, T.ONE), depth + 1)
                return None
            return f"not a chain of deletions: {show(x)}"
        bad = split((x,), facts, leaf)
        if bad:
            raise Undecided(bad[0])
    go(b, lp.inside(L), T.ZERO)
    return out


def _range(L):
    if L.kind != "for" or L.breaks or L.iter is None:
        return None
    t = L.iter if isinstance(L.iter, T.Term) else None
    if t is None:
        return None
    t = sized(t)
    if short(t) == "range":
        a = t.args[1]
        if len(a) == 1:
            return a[0]
        if len(a) == 2:
            return T.sub(a[1], a[0])
    return None


def at_most(lp, c, n, facts, sign=1, depth=0):
    """Is the counter value c at most n (sign 1) or at least n (sign -1) on all paths, by induction over the loop's test?"""
    if depth > 20:
        return False
    le = (lambda a, b: T.cmp("<=", a, b)) if sign > 0 else (lambda a, b: T.cmp("<=", b, a))
    lt = (lambda a, b: T.cmp("<", a, b)) if sign > 0 else (lambda a, b: T.cmp("<", b, a))

    def leaf(ts, f):
        v = ts[0]
        d = T.sub(n, v)
        if T.is_num(d):
            return None if d.args[1] * sign >= 0 else "beyond"
        if sign > 0 and v is T.ZERO or sign < 0 and n is T.ZERO and v is lp.want:
            return None  # numbers of points to drop are not negative
        if T.decide(le(v, n), f) or T.decide(lt(v, n), f):
            return None
        if v in lp.phi:
            a, b, L = lp.phi[v]
            if not at_most(lp, a, n, f, sign, depth + 1):
                return "beyond on entry"
            if b is None:
                return None
            g = lp.inside(L)

            def back(us, ff):
                return None if us[0] is v or T.alg_equal(us[0], T.add(v, T.const(sign))) and T.decide(lt(v, n), ff) else "beyond"
            return "beyond" if split((b,), g, back) else None
        return "beyond"
    return not split((c,), facts, leaf)


def exit_values(lp, e, facts):
    """Replace counters by the value with which they leave their loop."""
    for _ in range(6):
        e = resolve(e, facts)
        m = {}
        for u in T.subterms(e):
            if u.op == "max" and T.ZERO in u.args and len(u.args) == 2:
                v = [x for x in u.args if x is not T.ZERO][0]
                for c in [c for c in T.subterms(v) if c in lp.phi]:
                    if at_most(lp, c, T.add(v, c), facts):
                        m[u] = v
            if u in lp.phi:
                for c, v in facts.items():
                    if c.op == "cmp" and c.args[0] == "<" and v is False:
                        if c.args[1] is u and u not in set(T.subterms(c.args[2])) and at_most(lp, u, c.args[2], facts):
                            m[u] = c.args[2]
                        elif c.args[2] is u and u not in set(T.subterms(c.args[1])) and at_most(lp, u, c.args[1], facts, -1):
                            m[u] = c.args[1]
        if not m:
            return e
        e = T.subst(e, m)
    return e


def check_count(lp, x, want, facts, rep, rule, where, text):
    """Obligation: exactly `want` points (at least zero) are dropped."""
    lp.want = want

    def final(c, f):
        for t in [u for u in T.subterms(c) if u in lp.phi]:
            f = lp.exit_facts(lp.phi[t][2], f)
        f = settle(f)
        if f is None:
            return None
        goal = want
        if none_to_drop(want, f):
            goal = T.ZERO
        elif want.op == "max" and len(want.args) == 2 and T.ZERO in want.args:
            e = [a for a in want.args if a is not T.ZERO][0]
            r = T.decide(T.cmp("<", T.ZERO, e), f)
            goal = want if r is None else e if r else T.ZERO
        c = exit_values(lp, c, f)
        if T.alg_equal(c, goal) or T.alg_equal(c, want):
            return None
        return f"drops {show(c)} points instead of {show(goal)}"

    bad = []
    for c, f in dropped(lp, x, dict(facts)):
        bad += split((c,), f, lambda ts, ff: final(ts[0], ff))
    rep.ob(not bad, rule, where, text, bad[0] if bad else show(want))


def none_to_drop(want, f):
    return (T.decide(T.cmp("<", T.ZERO, want), f) is False or T.decide(T.cmp("==", want, T.ZERO), f) is True
            or T.decide(T.truth(want), f) is False)


# ------------------------------------------------------------------- positions
def canonical(lp, t, x, depth=0):
    """Values that follow the points: distances to the centre, pairwise distances.

    A loop-carried value that starts as a function of the points and loses the same
    rows as the points in every iteration stays that function of the points."""
    t2 = push(t)
    m = {}
    for u in T.subterms(t2):
        if u in lp.phi and u is not x and u not in m:
            w = follows(lp, u, depth)
            if w is not None:
                m[u] = w
    return push(T.subst(t2, m)) if m else t2


def follows(lp, u, depth=0):
    if depth > 6:
        return None
    key = ("follows", u)
    memo = lp.__dict__.setdefault("memo", {})
    if key in memo:
        return memo[key]
    memo[key] = None
    a, b, L = lp.phi[u]
    if a is None or b is None:
        return None
    for v, (va, vb, _) in lp.of(L).items():
        if v is u or vb is None or not _rows_like(lp, v):
            continue
        # the entry value as a function of the points at entry
        forms = []

        def leaf(ts, f):
            if ts[0].op == "call" and ts[0].args[0] == "undef" or ts[0].op == "undef":
                return None
            xa = resolve(ts[1], f)
            fa = canonical(lp, resolve(ts[0], f), xa, depth + 1)
            if xa not in set(T.subterms(fa)):
                return "unrelated"
            forms.append(T.subst(fa, {xa: v}))
            return None
        if split((a, va), {}, leaf) or not forms or any(g is not forms[0] for g in forms):
            continue
        g = forms[0]

        def back(ts, f):
            got = push(T.subst(ts[0], {u: g}))
            return None if got is push(T.subst(T.subst(g, {v: ts[1]}), {u: g})) else "diverges"
        if not split((b, vb), {}, back):
            memo[key] = g
            return g
    return None


def _rows_like(lp, v):
    return not T.is_num(lp.phi[v][0])


def push(t):
    """Move selections of rows inside: delete(norm(a - c, axis=1), k) -> norm(delete(a, k) - c, axis=1)."""
    memo = {}

    def go(t):
        if not isinstance(t, T.Term):
            return t
        if t in memo:
            return memo[t]
        r = t
        if t.op == "call" and short(t) == "delete":
            a, k = go(kw(t, "arr", 0)), go(kw(t, "obj", 1))
            ax = kw(t, "axis", 2)
            r = T.call("delete", a, k, *([] if ax in (None, T.NONE) else [ax]))
            if ax in (None, T.NONE, T.ZERO):
                d = centre_norm(a)
                if d is not None:
                    r = T.call("dist", T.call("delete", d, k, T.ZERO))
            b = r if r.op == "call" and short(r) == "delete" else None
            if b is not None and len(b.args[1]) == 3 and short(a) == "delete" and len(a.args[1]) == 3 and a.args[1][1] is k \
                    and {b.args[1][2], a.args[1][2]} == {T.ZERO, T.ONE}:
                p = a.args[1][0]
                if short(p) == "pair":
                    r = T.call("pair", T.call("delete", p.args[1][0], k, T.ZERO))
        else:
            r = _map(t, go)
            d = _distance(r)
            if d is not None:
                r = T.call("dist", d)
            d = _pairwise(r)
            if d is not None:
                r = T.call("pair", d)
        memo[t] = r
        return r
    return go(t)


def _map(t, go):
    ch = [u for u in T.children(t)]
    m = {}
    for u in ch:
        v = go(u)
        if v is not u:
            m[u] = v
    return T.subst(t, m) if m else t


def centre_norm(a):
    return a.args[1][0] if short(a) == "dist" else None


def _distance(t):
    """Points a if t are their distances from the incumbent."""
    n = short(t)
    if n == "norm":
        ax = kw(t, "axis", 2)
        o = kw(t, "ord", 1)
        if ax is not None and T.is_num(ax) and ax.args[1] in (1, -1) and (o is None or o is T.NONE or T.is_num(o) and o.args[1] == 2):
            return _minus_centre(t.args[1][0])
    if n == "sqrt" or t.op == "pow":
        q = t.args[1][0] if n == "sqrt" else None
        if q is not None and short(q) == "sum":
            ax = kw(q, "axis", 1)
            if ax is not None and T.is_num(ax) and ax.args[1] in (1, -1):
                d = T.to_sum(q.args[1][0])
                if len(d) == 1:
                    (m, c), = d.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 2:
                        return _minus_centre(m[0][0])
                return _minus_centre_sq(q.args[1][0])
    if n == "cdist":
        return None
    return None


def _minus_centre(t):
    for s in (t, T.neg(t)):
        a = T.add(s, SX)
        if SX not in set(T.subterms(a)) and a.op != "sum":
            return a
    return None


def _minus_centre_sq(t):
    for u in T.subterms(t):
        if u.op in ("sym", "phi", "call", "item", "ite") and u is not SX:
            if T.alg_equal(t, T.mul(T.sub(u, SX), T.sub(u, SX))):
                return u
    return None


def _pairwise(t):
    """Points a if t are their pairwise distances, infinite on the diagonal."""
    if t.op == "store":
        base, key, val = t.args[:3]
        if T.is_const(val) and val is T.inf() and _diagonal(key, base):
            return _square(base)
    if t.op == "sum":
        # squareform(pdist(a)) + diag(inf)
        return None
    return None


def _diagonal(k, base):
    n = short(k)
    if n in ("diag_indices_from",) and k.args[1][0] is base:
        return True
    return n == "diag_indices"


def _square(t):
    if short(t) == "squareform" and short(t.args[1][0]) == "pdist":
        p = t.args[1][0]
        m = kw(p, "metric", 1)
        if len(p.args[1]) > 2 or any(k not in ("metric", "X") for k, _ in p.args[2]):
            return None
        return kw(p, "X", 0) if m is None or m is T.const("euclidean") else None
    if short(t) == "cdist" and len(t.args[1]) == 2 and t.args[1][0] is t.args[1][1] and not t.args[2]:
        return t.args[1][0]


# -------------------------------------------------------------- deletion rules
def outside(lp, a, facts):
    """Is some of the points a outside of the trustregion (True, False or unknown)?"""
    d = T.call("dist", a)
    for c, v in facts.items():
        r = _says_outside(push(canonical(lp, c, a)), d)
        if r is not None:
            return v if r else not v
    return None


def _says_outside(c, d):
    """True if c means 'some point is outside', False if it means the contrary."""
    if c.op == "not":
        r = _says_outside(c.args[0], d)
        return None if r is None else not r
    far, near = T.cmp("<", SR, d), T.cmp("<=", d, SR)
    if c.op == "call" and short(c) in ("any", "all") and len(c.args[1]) == 1:
        if short(c) == "any" and c.args[1][0] is far:
            return True
        if short(c) == "all" and c.args[1][0] is near:
            return False
    if c.op == "cmp":
        op, x, y = c.args
        if op == "<" and x is SR and _ismax(y, d):
            return True
        if op == "<=" and y is SR and _ismax(x, d):
            return False
    if c.op == "call" and short(c) in ("truth", "bool"):
        return _says_outside(c.args[1][0], d)
    return None


def _ismax(t, d):
    return short(t) in ("max", "amax") and bool(t.args[1]) and t.args[1][0] is d


def no_one_outside(lp, a, facts, depth=0):
    """All points a are inside: known, or known before points were dropped in a loop."""
    if depth > 10:
        return False
    if outside(lp, a, facts) is False:
        return True
    s = selection(a)
    if s:  # fewer points
        return no_one_outside(lp, s[0], facts, depth + 1)
    if a in lp.phi:
        ini, b, L = lp.phi[a]
        if L not in lp.entry:
            return False

        def leaf(ts, f):
            t = ts[0]
            for u in [u for u in T.subterms(t) if u in lp.phi]:
                f = lp.exit_facts(lp.phi[u][2], f)
            f = settle(f)
            return None if f is None or no_one_outside(lp, t, f, depth + 1) else "x"
        return not split((ini,), lp.entry[L], leaf) and _shrinks(lp, a)
    return False


def _shrinks(lp, a):
    try:
        return bool(_steps(lp, lp.phi[a][2], a))
    except Undecided:
        return False


def nearest_pair(a):
    """Recognises the two positions of the closest pair of the points a."""
    p = T.call("pair", a)

    def pos(t):
        if t.op != "item" or not T.is_num(t.args[1]):
            return None
        k, u = t.args[1].args[1], t.args[0]
        if k not in (0, 1, -1, -2) or short(u) != "unravel_index":
            return None
        g = u.args[1][0]
        if short(g) == "argmin" and g.args[1][0] is p and len(g.args[1]) == 1 and not g.args[2]:
            sh = kw(u, "shape", 1)
            if sh is not None and _shape_of(sh, p, a):
                return k % 2
        return None
    return pos


def _shape_of(sh, p, a):
    if sh.op == "attr" and sh.args[0] is p and sh.args[1] == "shape":
        return True
    if sh.op in ("tuple", "list") and len(sh.args) == 2:
        return all(n in (T.call("len", p), T.call("len", a)) or n.op == "item" and n.args[0].op == "attr" and n.args[0].args[1] == "shape"
                   and n.args[0].args[0] in (p, a) for n in sh.args)
    return False


def site_rule(lp):
    """Which point may be dropped: the farthest while one is outside, else one of the closest pair, never the incumbent."""

    def leaf_of(a, b):
        def leaf(ts, f):
            c = canonical(lp, ts[0], a)
            while short(c) in ("int", "asarray") and len(c.args[1]) == 1:
                c = c.args[1][0]
            d = T.call("dist", a)
            if short(c) == "argmax" and len(c.args[1]) == 1 and not c.args[2] and c.args[1][0] is d:
                return None if outside(lp, a, f) is True else "the farthest point is dropped although no point may be outside of the trustregion"
            pos = nearest_pair(a)
            w = pos(c)
            if w is None:
                return f"the dropped position {show(c)} is neither that of the farthest point nor one of the closest pair"
            if not no_one_outside(lp, a, f):
                return "one of the closest pair is dropped although a point may be outside of the trustregion"
            cf = {canonical(lp, x, a): v for x, v in f.items()}
            ij = {}
            for x in cf:
                for u in T.subterms(x):
                    if pos(u) is not None:
                        ij[pos(u)] = u
            ij[w] = c
            if len(ij) < 2:
                return "one of the closest pair is dropped without comparing it to the other one"
            bb = canonical(lp, b, a)
            o = 1 - w
            inc = {q: T.decide(T.cmp("==", SI, item_of(bb, ij[q])), cf) for q in (0, 1)}
            if inc[w] is True:
                return "the incumbent is dropped"
            if inc[o] is True:
                return None
            if inc[w] is None:
                return "the incumbent may be dropped"
            if inc[o] is None:
                return "the other one of the pair may be the incumbent"
            dw, do = item_of(d, ij[w]), item_of(d, ij[o])
            if T.decide(T.cmp("<", dw, do), cf) is True or T.decide(T.cmp("<=", dw, do), cf) is True or T.decide(T.cmp("<", do, dw), cf) is False:
                return None
            return "the point that is farther from the incumbent may be dropped"
        return leaf

    def site(a, b, k, facts):
        r = split((k,), facts, leaf_of(a, b))
        return r[0] if r else None
    return site


def item_of(b, k):
    from ..interp import item
    return item(b, k)


# ------------------------------------------------------------------------ rule
def sized(t):
    """All spellings of the number of points become one; positive numbers are rounded down in one way."""
    m = {}
    for u in T.subterms(t):
        if u.op == "item" and u.args[0].op == "attr" and u.args[0].args[0] in (X, I) and u.args[0].args[1] == "shape" and u.args[1] is T.ZERO:
            m[u] = NLEN
        if u.op == "attr" and u.args[0] is I and u.args[1] == "size" or u.op == "call" and u.args[0] == "len" and u.args[1][0] is I:
            m[u] = NLEN
    t = T.subst(t, m) if m else t
    for _ in range(4):
        m = {}
        for u in T.subterms(t):
            if short(u) in ("int", "floor", "trunc") and len(u.args[1]) == 1:
                v = u.args[1][0]
                while short(v) in ("int", "floor", "trunc", "rounddown"):
                    v = v.args[1][0]
                m[u] = T.call("rounddown", v)
        if not m:
            break
        t = T.subst(t, m)
    return t


def state_of(it, st):
    from .common import region_rec, sym_rec
    return sym_rec(it, "State", "state", {"trustregion": region_rec(it, st, "state.trustregion")})


def analyse(ctx, f):
    from .. import lemma
    ps = lemma.params(f)
    return subject(ctx, f, make=(lambda it, st: {"state": state_of(it, st)} if "state" in ps else {}))


def pair_of(it, st, r):
    t = it.tm(it.resolve(r, st), st)
    if t.op in ("tuple", "list") and len(t.args) == 2:
        return t.args
    raise Broken("a filter does not return points and indices")


def check_C15(ctx, rep):
    rep.rule("pairing", "filters return rows of the given points together with the indices at the same positions, or the incumbent with its index")
    rep.rule("count", "exactly as many points are dropped as requested, for drop_excess the number above target_size times n_max_factor")
    rep.rule("which", "the farthest point is dropped while one is outside, otherwise one of the closest pair, never the incumbent")
    rep.rule("all", "keep_all keeps everything, discard_all only the incumbent")
    for n, f in sorted(component_of(ctx, "get_sample_filter").registry.items()):
        one(ctx, rep, n, f)
    from ..interp import Interp
    f = Interp(ctx.project, {}).find_func("drop_worst_points")
    one(ctx, rep, f.name, f, "n_to_drop")


def one(ctx, rep, name, f, n=None):
    w = ctx.project.rel(f.module) + ":" + f.name
    it, st, r = analyse(ctx, f)
    x, i = (sized(t) for t in pair_of(it, st, r))
    lp = Loops(it)
    bad = paired(lp, x, i)
    rep.ob(not bad, "pairing", w, f"points and indices of {name}", bad[0] if bad else "")
    if name == "keep_all":
        rep.ob(strip(x) is X and strip(i) is I, "all", w, "keep_all returns its input", show(x))
    if name == "discard_all":
        rep.ob(row_of(x) is SX, "all", w, "discard_all returns the incumbent", show(x))
    if name == "drop_excess" or n is not None:
        want = S(n) if n is not None else T.tmax(T.ZERO, T.sub(NLEN, T.call("rounddown", T.mul(S("target_size"), S("n_max_factor")))))
        try:
            check_count(lp, x, want, {}, rep, "count", w, f"number of points dropped by {name}")
        except Undecided as e:
            rep.ob(False, "count", w, f"number of points dropped by {name}", str(e))
        lp.entry = {}
        bad = paired(lp, x, i, site=site_rule(lp))
        rep.ob(not bad, "which", w, f"points dropped by {name}", bad[0] if bad else "")
