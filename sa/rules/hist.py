"""C09/C10: the history of points and evaluations."""
from .. import eqv, lemma, models, terms as T
from ..interp import Interp, elem, item
from ..order import Order
from ..project import Broken
from ..report import show
from ..values import DictS, InstS, ListS, Ref, Val
from .common import Part, deep_same, oracle, same

S = T.sym
NX, NF, XS, FV, FL, MAP = (S("h.n_xs"), S("h.n_fun"), S("h.xs"), S("h.fvecs"), S("h.fvals"), S("h.index_mapper"))


def history(ctx, functype=None):
    """A history with arbitrary content: (interp, state, reference)."""
    it = Interp(ctx.project, {})
    it.components, it.added, it.versions = [], {}, {}
    ci = it.find_class("History")
    st = lemma.start(it, ci.module)
    h = it.construct(ci, [Val(T.const(functype)) if functype else Val(S("functype"))], {}, st, None)
    o = it.hobj(st, h)
    a = dict(o.attrs)
    for k in ("xs", "fvecs", "fvals", "n_xs", "n_fun", "index_mapper"):
        if k not in a:
            raise Broken(f"History has no attribute {k}")
        if k == "index_mapper":
            a[k] = it.alloc(st, DictS([("splice", MAP)]))
        else:
            a[k] = Val(S("h." + k), frozenset({"hist:" + k}))
    st.heap[h.loc] = InstS(o.cls, a)
    it.events.clear()
    return it, st, h


def run(ctx, meth, functype="least_squares", assume=(), pre=(), **kw):
    it, st, h = history(ctx, functype)
    for c, v in assume:
        st.assume(c, v)
    m = it.getattr(h, meth, st, None)
    r = it.call(m, [], {k: (Val(v, frozenset({"param:" + k})) if isinstance(v, T.Term) else v) for k, v in kw.items()}, st, None)
    ctx.count(it)
    return it, st, h, r


def attrs(it, st, h):
    return {k: it.tm(v, st) for k, v in it.hobj(st, h).attrs.items()}


def where(ctx, meth):
    it = Interp(ctx.project, {})
    ci = it.find_class("History")
    return f"{ctx.project.rel(ci.module)}:History.{meth}"


def is_growth(a, old, fill, n, k):
    """Is `a` an array that keeps the first n rows of `old` and has room for n + k?
    Returns (keeps, note)."""
    if a is old:
        return True
    if a.op == "call" and a.args[0] in ("vstack", "hstack", "numpy.concatenate", "concatenate", "concat0"):
        parts = a.args[1]
        if len(parts) == 1 and parts[0].op in ("tuple", "list"):
            parts = parts[0].args
        return bool(parts) and is_growth(parts[0], old, fill, n, k)
    if a.op == "call" and a.args[0] == "numpy.append":
        return is_growth(a.args[1][0], old, fill, n, k)
    return False


def room(a):
    """Parts of an array's length: ('len', term) summands."""
    if a.op == "call" and a.args[0] in ("vstack", "hstack", "numpy.concatenate", "concatenate", "concat0"):
        parts = a.args[1]
        if len(parts) == 1 and parts[0].op in ("tuple", "list"):
            parts = parts[0].args
        s = T.ZERO
        for p in parts:
            s = T.add(s, room(p))
        return s
    if a.op == "call" and a.args[0] in ("numpy.full", "numpy.empty", "numpy.zeros", "numpy.ones"):
        sh = a.args[1][0]
        return sh.args[0] if sh.op in ("tuple", "list") else sh
    return T.call("len", a)


def fits(a, n, k, path):
    """len(a) >= n + k follows from the row's conditions or from the construction."""
    size = room(a)
    need = T.add(n, k)
    goal = T.sub(size, need)
    if T.is_num(goal):
        return T.cval(goal) >= 0 if T.is_const(goal) else False
    for d, s in path:
        if isinstance(s, bool):
            continue
        # d < 0 / = 0 / > 0 ; goal = c*d with d >= 0
        for sgn in (1, -1):
            if T.sub(goal, T.mul(T.const(sgn), d)) is T.ZERO and sgn * s >= 0:
                return True
    if a.op == "call":
        # size = len(old) + ext ; need len(old) >= n and ext >= k
        parts = a.args[1]
        if len(parts) == 1 and parts[0].op in ("tuple", "list"):
            parts = parts[0].args
        if len(parts) == 2:
            ext = room(parts[1])
            return ext_ge(ext, k)
    return False


def ext_ge(ext, k):
    if ext is k:
        return True
    d = T.sub(ext, k)
    if T.is_num(d) and T.is_const(d):
        return T.cval(d) >= 0
    if ext.op == "max":
        return any(ext_ge(x, k) for x in ext.args if isinstance(x, T.Term))
    return False


def rows_of(t):
    """Terms that denote the number of rows of a 2d array t."""
    return {T.call("len", t), T.sub(T.call("len", t), T.ZERO)}


def slice_of(i):
    if i.op == "tuple" and i.args and i.args[0].op == "slice":
        i = i.args[0]
    if i.op == "slice":
        return i.args[0], i.args[1]
    return None, None


def dims(t, known):
    """Replace the known numbers of dimensions."""
    m = {}
    for u in T.subterms(t):
        if u.op == "attr" and u.args[1] == "ndim":
            b = u.args[0]
            if b in known:
                m[u] = T.const(known[b])
            elif b.op == "call" and b.args[0] in ("numpy.full", "numpy.empty", "numpy.zeros"):
                sh = b.args[1][0]
                m[u] = T.const(len(sh.args)) if sh.op in ("tuple", "list") else T.ONE
        if u.op == "call" and u.args[0] == "len":
            if ("len", u.args[1][0]) in known:
                m[u] = known["len", u.args[1][0]]
                continue
            n = room(u.args[1][0])
            if n is not u:
                m[u] = n
        if u.op == "attr" and u.args[1] == "size" and u.args[0] in known:
            m[u] = T.call("len", u.args[0])
    return T.subst(t, m) if m else t


def fix(t, known):
    for _ in range(6):
        u = dims(t, known)
        if u is t:
            break
        t = u
    return t


def make_impossible(known):
    def impossible(d, s, path):
        if isinstance(s, bool):
            e = dims(d, known)
            r = T.decide(e, {}) if e is not d else None
            if e is T.TRUE or r is True:
                return s is False
            if e is T.FALSE or r is False:
                return s is True
            return False
        if d.op == "call" and d.args[0] == "len" and s < 0:
            return True
        e = dims(d, known)
        if T.is_const(e) and T.is_num(e):
            v = T.cval(e)
            return (v > 0) - (v < 0) != s
        return False
    return impossible


def table(ts, known=None):
    known = known or {}
    try:
        return list(eqv.rows(ts, make_impossible(known), norm=lambda t: fix(t, known)))
    except eqv.TooBig:
        raise Broken("history update has too many cases")


def check_store(rep, w, what, old_arr, n_old, values, tab, rule="append"):
    """tab: rows (path, (array, k, ...)) of an append of `values` behind row n_old."""
    okall = True
    det = ""
    n = 0
    for path, cur in tab:
        arr, k, n0 = cur[0], cur[1], cur[2]
        if arr is old_arr or arr is T.NONE:
            if k is not T.ZERO:
                okall, det = False, "nothing stored " + eqv.explain(path)
            continue
        n += 1
        if arr.op != "store":
            okall, det = False, show(arr)
            continue
        base, idx, v = arr.args
        lo, hi = slice_of(idx)
        none = any(d.op == "cmp" and d.args[0] == "==" and s is True and T.NONE in d.args and old_arr in d.args for d, s in path)
        if lo is None or hi is None or T.sub(lo, n0) is not T.ZERO or T.sub(hi, T.add(n0, k)) is not T.ZERO:
            okall, det = False, f"written to rows {show(lo) if lo is not None else show(idx)}:{show(hi) if hi is not None else ''}"
        elif not any(v is x for x in values):
            okall, det = False, "stored value is " + show(v)
        elif not none and not is_growth(base, old_arr, None, n0, k):
            okall, det = False, "array written to does not keep the old rows: " + show(base)
        elif not fits(base, n0, k, path):
            okall, det = False, "no room for the new rows: " + show(base) + " " + eqv.explain(path)
    if not n:
        okall, det = False, det or "never stored"
    return rep.ob(okall, rule, w, what, det)


def check_C09(ctx, rep):
    rep.rule("append", "new entries are written directly behind the existing ones; existing rows are kept")
    rep.rule("count", "entry counters grow by exactly the number of new entries")
    rep.rule("index", "new points get the next indices and start without evaluations")
    rep.rule("mapping", "the i-th value is filed under the i-th requested point")
    rep.rule("aggregate", "the stored criterion value is the aggregate of the stored vector for the kind of problem")
    rep.rule("reject", "evaluations for unknown points are rejected before anything changes")
    rep.rule("frame", "adding points leaves evaluations untouched and vice versa; nothing else writes to the history")
    # ---- add_xs
    w = where(ctx, "add_xs")
    for single in (True, False):
        tag = "one point" if single else "several points"
        x = S("xs")
        it, st, h, r = run(ctx, "add_xs", xs=x)
        a = attrs(it, st, h)
        X = T.call("numpy.atleast_2d", x)
        k = T.call("len", X)
        if not single:
            a = {q: T.subst(t, {X: x}) for q, t in a.items()}
            X, k = x, T.call("len", x)
        rng = T.call("numpy.arange", NX, T.add(NX, k))
        known = {x: 1 if single else 2, X: 2, XS: 2}
        ret = it.tm(r, st)
        if single:
            # a single point is one row, and it is not empty
            m1 = {k: T.ONE, T.mk("attr", X, "size"): T.ONE}
            a = {q: T.subst(t, m1) for q, t in a.items()}
            ret, rng, k = (T.subst(t, m1) for t in (ret, rng, k))
        else:
            m1 = {T.call("numpy.atleast_2d", x): x}
            ret = T.subst(ret, m1)
        tab = table([a["xs"], k, NX, a["n_xs"], ret, rng], known)
        check_store(rep, w, f"[{tag}] points are appended", XS, NX, (X,), tab)
        ok = oki = True
        det = deti = ""
        for path, (arr, kk, nx, n, rt, rg) in tab:
            if T.sub(n, T.add(nx, kk)) is not T.ZERO:
                ok, det = False, f"{show(n)} points {eqv.explain(path)}"
            if kk is T.ZERO:
                continue
            if not (rt is item(rg, T.ZERO) or rt is nx if single else rt is rg):
                oki, deti = False, "returns " + show(rt)
        rep.ob(ok, "count", w, f"[{tag}] number of points", det)
        rep.ob(oki, "index", w, f"[{tag}] the returned indices are those of the new rows", deti)
        okm = mapper_init(it, st, a["index_mapper"], X, rng)
        rep.ob(okm, "index", w, f"[{tag}] every new point starts with an empty list of evaluations of its own", show(a["index_mapper"]))
        rep.ob(a["fvecs"] is FV and a["fvals"] is FL and a["n_fun"] is NF, "frame", w, f"[{tag}] evaluations are not touched")
    # ---- add_evals
    add_evals(ctx, rep)
    # ---- nobody else writes into the history
    other_writers(ctx, rep)


def add_evals(ctx, rep, only=None, rule=None):
    """Obligations on adding evaluations; `only` selects rules, `rule` renames them."""
    def ob(ok, r, *a):
        if only is None or r in only:
            rep.ob(ok, rule or r, *a)

    def stored(r, *a):
        if only is None or "append" in only:
            check_store(r, *a, rule=rule or "append")
    w = where(ctx, "add_evals")
    I = T.call("numpy.atleast_1d", S("x_indices"))
    m = T.call("len", I)
    for ft in ("scalar", "likelihood", "least_squares"):
        it, st, h, r = run(ctx, "add_evals", ft, x_indices=S("x_indices"), evals=S("evals"))
        a = attrs(it, st, h)
        vec = vec_forms(ft)
        _, _, agg = oracle(ctx, "aggregate_" + ft, {"x": vec[0]})
        aggs = [agg, T.call("numpy.atleast_1d", agg)]
        known = {vec[0]: 2, FV: 2, FL: 1, I: 1, **{g: 1 for g in aggs}}
        known.update({("len", v): m for v in list(vec) + aggs})
        pre = {k: fix(t, known) for k, t in a.items()}
        ag2 = [fix(t, known) for t in aggs]
        tab = table([pre["fvecs"], m, NF, pre["n_fun"], *vec], known)
        stored(rep, w, f"[{ft}] evaluations are appended", FV, NF, vec, tab)
        tab2 = table([pre["fvals"], m, NF, pre["n_fun"], *ag2], known)
        vals = [c[0].args[2] for _, c in tab2 if c[0].op == "store"]
        okv = bool(vals) and all(any(v is g or T.alg_equal(v, g) for g in aggs + ag2) for v in vals)
        ob(okv, "aggregate", w, f"[{ft}] the criterion value is the aggregate of the evaluation", "; ".join(show(v) for v in vals[:1]))
        stored(rep, w, f"[{ft}] criterion values are appended", FL, NF, vals if okv else ag2, tab2)
        ok, det = True, ""
        for path, c in tab:
            if T.sub(c[3], T.add(c[2], c[1])) is not T.ZERO:
                ok, det = False, f"{show(c[3])} evaluations {eqv.explain(path)}"
        ob(ok, "count", w, f"[{ft}] number of evaluations", det)
        app = [e for e in it.events if e.kind == "mutate"]
        ob(len(app) == 1 and mapping_ok(it, app[0], I, m), "mapping", w, f"[{ft}] values are filed in order under their points",
               "; ".join(show(e.data["target"]) if e.data.get("target") is not None else "?" for e in app[:2]))
        ob(a["xs"] is XS and a["n_xs"] is NX, "frame", w, f"[{ft}] points are not touched")
        muts = [e for e in it.events if e.kind in ("mutate", "write", "setattr")]
        okr = bool(muts) and all(valid_index_guard(e, I) for e in muts)
        ob(okr, "reject", w, f"[{ft}] nothing is stored unless all indices are known points", show(muts[0].guard) if muts else "")
        okn = all(implied(e.guard, T.cmp("==", m, T.call("len", vec[0]))) for e in muts)
        ob(okn, "reject", w, f"[{ft}] nothing is stored unless there is one value per index", show(muts[0].guard) if muts else "")


def vec_forms(ft):
    e = S("evals")
    if ft == "scalar":
        return (T.call("numpy.reshape", e, T.mk("tuple", T.const(-1), T.ONE)),)
    return (T.call("numpy.atleast_2d", e),)


def mapper_init(it, st, t, X, rng):
    """index_mapper gets a list of its own for every index in rng (when there are points)."""
    f = {}
    for e in (T.mk("attr", X, "size"), T.call("len", X)):
        T.split_fact(T.cmp("==", T.ZERO, e), False, f)

    def dec(c):
        if c in (T.TRUE, T.FALSE):
            return c is T.TRUE
        return T.decide(c, f)

    m = {u: (u.args[1] if dec(u.args[0]) else u.args[2]) for u in T.subterms(t) if u.op == "ite" and dec(u.args[0]) is not None}
    t = T.subst(t, m)
    parts = list(t.args) if t.op == "dict" else [t]
    if not parts or parts[0] is not MAP:
        return False
    parts = parts[1:]
    while len(parts) == 1 and parts[0].op == "dictite":
        d = dec(parts[0].args[0])
        if d is None:
            return False
        parts = [parts[0].args[1] if d else parts[0].args[2]]
    if len(parts) != 1:
        return False
    p = parts[0]
    if p.op == "dict" and len(p.args) == 1:
        p = p.args[0]
    if p.op == "dmap":
        src, var, key, val, cond = p.args
        if src is not rng or key is not var or cond is not T.TRUE:
            return False
    elif p.op == "kv":
        key, val = p.args
        if T.sub(key, NX) is not T.ZERO or T.sub(rng.args[1][-1], T.add(NX, T.ONE)) is not T.ZERO:
            return False
    else:
        return False
    if val.op != "ref":
        return False
    loc = val.args[0]
    o = st.heap.get(loc) or it.per_element.get(loc)
    if o is None or o.kind != "list" or o.parts:
        return False
    return p.op == "kv" or loc in it.per_element


def implied(g, c):
    f = {}
    T.split_fact(g, True, f)
    return T.decide(c, f) is True


def covers(c, want):
    """+1: c is `want`, -1: c is its negation (numbers, by sign of the difference), 0: unrelated."""
    if c.op == "not":
        return -covers(c.args[0], want)
    if c is want:
        return 1
    k, w = eqv.sign_key(c), eqv.sign_key(want)
    if k is None or w is None or k[0] is not w[0]:
        return 0
    v = [[{"<": s < 0, "<=": s <= 0, "==": s == 0}[t.args[0]] for s in (-x if q[1] else x for x in (-1, 0, 1))]
         for t, q in ((c, k), (want, w))]
    return 1 if v[0] == v[1] else -1 if all(p != q for p, q in zip(*v)) else 0


def valid_index_guard(e, I):
    """Nothing happens unless 0 <= every index < number of points."""
    lo, hi = T.cmp("<=", T.ZERO, I), T.cmp("<", I, NX)
    f = {}
    T.split_fact(e.guard, True, f)
    got = set()

    def parts(t, op):
        return [y for x in t.args for y in parts(x, op)] if t.op == op else [t]

    for s in T.subterms(e.guard):
        if s.op == "call" and s.args[0] in ("numpy.all", "all") and T.decide(T.truth(s), f) is True:
            for c in parts(s.args[1][0], "and"):
                for n, wnt in (("lo", lo), ("hi", hi)):
                    if covers(c, wnt) == 1:
                        got.add(n)
                if c is T.call("numpy.isin", I, T.call("numpy.arange", NX)):
                    got |= {"lo", "hi"}
        if s.op == "call" and s.args[0] in ("numpy.any", "any") and T.decide(T.truth(s), f) is False:
            for c in parts(s.args[1][0], "or"):
                for n, wnt in (("lo", lo), ("hi", hi)):
                    if covers(c, wnt) == -1:
                        got.add(n)
        if s.op == "cmp":
            d = T.decide(s, f)
            if d is None:
                continue
            for n, wnt in (("lo", T.cmp("<=", T.ZERO, T.call("numpy.min", I))), ("hi", T.cmp("<", T.call("numpy.max", I), NX))):
                if covers(s, wnt) == (1 if d else -1):
                    got.add(n)
    return {"lo", "hi"} <= got


def mapping_ok(it, e, I, m):
    """index_mapper[I[j]].append(n_fun + j)"""
    if e.data["how"] != "append":
        return False
    t = e.data.get("target")
    v = e.data["args"][0]
    v = v.term if isinstance(v, Val) else v
    rng = T.call("numpy.arange", NF, T.add(NF, m))
    if t is None or t.op != "item" or t.args[0] is not MAP:
        return False
    key = t.args[1]
    if len(e.loops) != 1:
        return False
    for s in {x for x in T.subterms(T.mk("tuple", key, v)) if x.op == "elem"}:
        src = s.args[0]
        if src.op == "zip" and len(src.args) == 2:
            for p, q in ((0, 1), (1, 0)):
                if src.args[p] is I and key is item(s, T.const(p)):
                    w = item(s, T.const(q))
                    o = src.args[q]
                    if o is rng and v is w:
                        return True
                    if o is T.call("range", NF, T.add(NF, m)) and v is w:
                        return True
                    if o in (T.call("range", m), T.call("numpy.arange", m)) and T.sub(v, T.add(NF, w)) is T.ZERO:
                        return True
        if src is T.call("range", m) and (key is item(I, s) or key is elem(I)) and T.sub(v, T.add(NF, s)) is T.ZERO:
            return True
        if src is T.call("range", m) and key is item(I, s) and v is item(rng, s):
            return True
    return False


def other_writers(ctx, rep):
    """Syntactic: attributes of a history are assigned only inside the class."""
    import ast
    it = Interp(ctx.project, {})
    ci = it.find_class("History")
    names = {"xs", "fvecs", "fvals", "n_xs", "n_fun", "index_mapper"}
    bad = []
    n = 0
    for mod in ctx.project.modules.values():
        if mod.name == "oracle":
            continue
        for node in ast.walk(mod.tree):
            tgts = []
            if isinstance(node, ast.Assign):
                tgts = node.targets
            elif isinstance(node, (ast.AugAssign, ast.AnnAssign)):
                tgts = [node.target]
            for t in tgts:
                n += 1
                b = t
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute) and b.attr in names and not (isinstance(b.value, ast.Name) and b.value.id == "self"):
                    if isinstance(b.value, ast.Name) and "hist" in b.value.id:
                        bad.append(f"{mod.name}:{node.lineno}")
    rep.ob(not bad, "frame", ctx.project.rel(ci.module), "no assignment to history storage outside the class", ", ".join(bad))
    # adding evaluations happens in the wrapper only
    calls = set()
    for mod in ctx.project.modules.values():
        if mod.name in ("oracle", ci.module):
            continue
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Attribute) and node.attr == "add_evals":
                calls.add(mod.name)
    g = it.find_func("get_wrapped_criterion")
    rep.ob(calls <= {g.module}, "frame", ctx.project.rel(g.module) + ":get_wrapped_criterion",
           "evaluations are added only by the evaluation wrapper", ", ".join(sorted(calls)))


# ------------------------------------------------------------------ retrieval
def norm(t):
    """Equivalent ways to select stored entries."""
    for _ in range(6):
        m = {}
        for s in T.subterms(t):
            if s.op == "item" and s.args[0].op == "item" and s.args[0].args[0] in (FV, FL) \
                    and s.args[1].op == "item" and s.args[1].args[0] is MAP and s.args[0].args[1] is slice_to(NF):
                m[s] = T.mk("item", s.args[0].args[0], s.args[1])  # file positions are below the counter
            elif s.op == "call" and s.args[0] == "len" and s.args[1][0] is T.mk("item", XS, slice_to(NX)):
                m[s] = NX
            elif s.op == "call" and s.args[0] == "len" and s.args[1][0].op in ("cmp", "not", "and", "or"):
                m[s] = NX
            elif s.op == "item" and s.args[1] is T.ZERO and s.args[0].op == "item" and s.args[0].args[0] is T.call("numpy.arange", NX) \
                    and s.args[0].args[1].op == "list" and len(s.args[0].args[1].args) == 1:
                m[s] = s.args[0].args[1].args[0]
            elif s.op == "item" and s.args[0].op == "call" and s.args[0].args[0] == "numpy.arange" and s.args[1].op in ("cmp", "not", "and", "or"):
                if s.args[0].args[1] == (NX,):
                    m[s] = T.call("selected", s.args[1])
            elif s.op == "call" and s.args[0] in ("numpy.flatnonzero",):
                m[s] = T.call("selected", s.args[1][0])
            elif s.op == "item" and s.args[1] is T.ZERO and s.args[0].op == "call" and s.args[0].args[0] in ("numpy.where", "numpy.nonzero") \
                    and len(s.args[0].args[1]) == 1:
                m[s] = T.call("selected", s.args[0].args[1][0])
        m = {k: v for k, v in m.items() if not any(u is not k and u in m for u in T.subterms(k))}
        if not m:
            break
        t = T.subst(t, m)
    return t


def slice_to(n):
    return T.mk("slice", T.NONE, n, T.NONE)


def check_C10(ctx, rep):
    from .common import region_rec
    rep.rule("points", "points are returned as stored, in the order of the requested indices")
    rep.rule("evaluations", "the evaluations of a point are exactly those filed under it, in order")
    rep.rule("counts", "numbers of points and evaluations are the numbers of stored entries")
    rep.rule("data", "model data pair every point with the mean (or all) of its own evaluations")
    rep.rule("region", "the points in a region are those within its radius around its centre")
    rep.rule("stored", "what is stored are the given points and evaluations, appended behind the existing ones and counted")
    check_C09(ctx, Part(rep, "stored", ("append", "count", "index", "mapping", "aggregate")))
    idx = S("x_indices")
    scal = T.call("numpy.isscalar", idx)
    base = {"xs": XS, "mapper": MAP, "n_xs": NX, "n_fun": NF, "idx": idx}

    def ref(name, **kw):
        import inspect  # noqa
        it = Interp(ctx.project, {})
        f = it.find_func(name, "oracle")
        a = {**base, **kw}
        return norm(oracle(ctx, name, {p: a[p] for p in lemma.params(f)})[2])

    def got(meth, assume=(), **kw):
        it, st, h, r = run(ctx, meth, "least_squares", assume, **kw)
        a = attrs(it, st, h)
        clean = all(a[k] is v for k, v in (("xs", XS), ("fvecs", FV), ("fvals", FL), ("n_xs", NX), ("n_fun", NF), ("index_mapper", MAP)))
        ev = [e for e in it.events if e.kind in ("setattr", "mutate", "write") and e.data.get("target") in (MAP, XS, FV, FL)]
        rep.ob(clean and not ev, "points", where(ctx, meth), f"{meth} does not change the history", "")
        return it, st, norm(it.tm(r, st))

    some = (T.cmp("==", T.NONE, idx), False)
    _, _, t = got("get_xs")
    same(rep, "points", where(ctx, "get_xs"), "all points", t, norm(T.mk("item", XS, slice_to(NX))))
    _, _, t = got("get_xs", (some,), x_indices=idx)
    same(rep, "points", where(ctx, "get_xs"), "requested points", t, ref("hist_xs"))
    many, one = (scal, False), (scal, True)
    for meth, arr in (("get_fvecs", FV), ("get_fvals", FL)):
        _, _, t = got(meth, (many, some), x_indices=idx)
        same(rep, "evaluations", where(ctx, meth), "evaluations of several points", t, ref("hist_vals", arr=arr))
        _, _, t = got(meth, (one, some), x_indices=idx)
        same(rep, "evaluations", where(ctx, meth), "evaluations of one point", t, ref("hist_one", arr=arr))
    _, _, t = got("get_n_evals", (many, some), x_indices=idx)
    same(rep, "counts", where(ctx, "get_n_evals"), "evaluations per point", t, ref("hist_counts", arr=FL))
    _, _, t = got("get_n_fun")
    same(rep, "counts", where(ctx, "get_n_fun"), "number of evaluations", t, NF)
    _, _, t = got("get_n_xs")
    same(rep, "counts", where(ctx, "get_n_xs"), "number of points", t, NX)
    for avg, name in ((True, "hist_average"), (False, "hist_all")):
        _, _, t = got("get_model_data", (many, some), x_indices=idx, average=Val(T.const(avg)))
        same(rep, "data", where(ctx, "get_model_data"), "averaged data" if avg else "all data", t, ref(name, arr=FV))
    # region
    it, st, h = history(ctx, "least_squares")
    st.assume(T.cmp("==", NF, T.ZERO), False)
    r = it.call(it.getattr(h, "get_x_indices_in_region", st, None), [], {"region": region_rec(it, st, "region")}, st, None)
    ctx.count(it)
    same(rep, "region", where(ctx, "get_x_indices_in_region"), "points in a region", norm(it.tm(r, st)),
         ref("hist_near", center=S("region.center"), radius=S("region.radius")))
