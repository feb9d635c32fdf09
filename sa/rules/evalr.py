"""C05: evaluation of the criterion through the batch evaluator."""
from .. import eqv, lemma, models, terms as T
from ..interp import Interp, elem
from ..order import Order
from ..project import Broken
from ..report import show
from ..values import DictS, Hooked, Val
from . import hist
from .common import history_value

S = T.sym
K = S("K")
E = elem(K)
REPS = T.call("nrep", E)
STRFULL = "numpy.full"


def wrapper(ctx, parts, functype=None):
    """Run the wrapped criterion on a dict with the given parts."""
    it = Interp(ctx.project, models.history_hooks())
    it.components, it.added, it.versions = [], {}, {}
    f = it.find_func("get_wrapped_criterion")
    st = lemma.start(it, f.module)
    h = history_value(it, st)
    it.fvecs_before = it.tm(it.getattr(h, "fvecs", st, None), st)

    def be(interp, st, args, kwargs, node):
        r = interp.ev_term("evals")
        a = dict(zip(("func", "arguments"), args))
        a.update(kwargs)
        interp.event("batch", st, node, args={k: interp.tm(v, st) for k, v in a.items()}, nargs=len(args), result=r)
        return Val(r)

    for n in ("batch_evaluator",):
        st.assume(T.truth(T.call("callable", S(n))), True)
    w = it.call(f, [], {"criterion": Val(S("criterion")), "batch_evaluator": Hooked("batch_evaluator", be),
                        "n_cores": Val(S("n_cores")), "history": h}, st, f.node)
    s0 = len(it.events)
    if parts is None:
        info = Val(S("notadict"))
        st.assume(T.mk("isinst", S("notadict"), "dict"), False)
    else:
        info = it.alloc(st, DictS(parts))
    r = it.call(w, [info], {}, st, f.node)
    ctx.count(it)
    return it, st, it.events[s0:], r, f


def unlist(t):
    while t.op == "call" and t.args[0] in ("list", "numpy.array", "numpy.asarray", "tuple") and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op == "map" and t.args[1] is t.args[2] and t.args[3] is T.TRUE:
        return unlist(t.args[0])
    return t


def repeated(t):
    """(what, repetitions) of np.repeat(what, repetitions[, axis=0])."""
    t = unlist(t)
    if t.op == "call" and t.args[0] == "xs" and len(t.args[1]) == 1:
        r = repeated(t.args[1][0])
        return None if r is None or r[2] not in (None, T.ZERO) else (T.call("xs", r[0]), r[1], T.ZERO)
    if t.op == "flatmap" and t.args[3] is T.TRUE and t.args[2].op == "map" and t.args[2].args[3] is T.TRUE:
        src, var, inner, _ = t.args
        r = inner.args[0]
        if r.op == "call" and r.args[0] == "range" and len(r.args[1]) == 1 and not any(u is inner.args[1] for u in T.subterms(inner.args[2])):
            return unlist(T.mk("map", src, var, inner.args[2], T.TRUE)), T.mk("map", src, var, r.args[1][0], T.TRUE), T.ZERO
    if t.op == "call" and t.args[0] == "numpy.repeat" and len(t.args[1]) >= 2:
        kw = dict(t.args[2]) if len(t.args) > 2 else {}
        if len(t.args[1]) > 2:
            kw["axis"] = t.args[1][2]
        return unlist(t.args[1][0]), unlist(t.args[1][1]), kw.get("axis")
    return None


def check_C05(ctx, rep):
    rep.rule("batch", "one batch evaluator call with the criterion, every point as often as requested, in order")
    rep.rule("cores", "never more workers than configured")
    rep.rule("failures", "a failing call is caught and becomes +inf")
    rep.rule("values", "NaN becomes +inf, infinite values keep their sign, other values are stored as they are")
    rep.rule("shape", "replacements have the shape of a successful evaluation")
    rep.rule("filed", "the i-th value of the batch is filed under the point it was evaluated at")
    rep.rule("input", "nothing is evaluated for an empty request, other inputs are rejected")
    rep.rule("only", "the criterion is only called through the wrapper")
    it, st, evs, r, f = wrapper(ctx, [("map", K, E, E, Val(REPS), T.TRUE)])
    w = f"{ctx.project.rel(f.module)}:{f.name}"
    b = [e for e in evs if e.kind == "batch"]
    a = [e for e in evs if e.kind == "add_evals"]
    other = [e for e in evs if e.kind == "opaque" and e.data["func"] is S("criterion")]
    rep.ob(len(b) == 1 and not other and not b[0].loops, "batch", w, "one call of the batch evaluator per request", f"{len(b)} calls")
    rep.ob(len(a) == 1 and not a[0].loops, "filed", w, "one addition to the history per request", f"{len(a)} additions")
    if len(b) != 1 or len(a) != 1:
        return
    b, a = b[0], a[0]
    g = b.data["args"]
    rep.ob(g.get("func") is S("criterion"), "batch", w, "the criterion function is what is evaluated", show(g.get("func", T.NONE)))
    ar = repeated(g.get("arguments", T.NONE))
    reps = T.mk("map", K, E, REPS, T.TRUE)
    okx = ar is not None and ar[0] is T.call("xs", K) and ar[2] is T.ZERO
    rep.ob(okx, "batch", w, "arguments are the requested points of the history in order", show(g.get("arguments", T.NONE)))
    rep.ob(ar is not None and ar[1] is reps, "batch", w, "every point occurs as often as requested", show(g.get("arguments", T.NONE)))
    ix = repeated(a.data["args"]["x_indices"])
    rep.ob(ix is not None and ix[0] is K and ix[1] is reps and ix[2] in (None, T.ZERO), "filed", w,
           "values are filed under the index of their point, with the same multiplicity and order", show(a.data["args"]["x_indices"]))
    nc = g.get("n_cores")
    o = Order()
    rep.ob(nc is not None and (o.le(nc, S("n_cores")) or eqv.equal(nc, T.tmin(S("n_cores"), T.call("len", g["arguments"])))[0]), "cores", w, "number of workers", show(nc) if nc is not None else "not passed on")
    rep.ob(g.get("error_handling") is T.const("continue"), "failures", w, "exceptions of the criterion do not end the optimization",
           show(g.get("error_handling", T.NONE)))
    fv = it.fvecs_before
    values(ctx, rep, w, a.data["args"]["evals"], b.data["result"], it, fv)
    # ---- other inputs
    it, st, evs, r, f = wrapper(ctx, [])
    rep.ob(not [e for e in evs if e.kind in ("batch", "add_evals")], "input", w, "nothing is evaluated for an empty request")
    it, st, evs, r, f = wrapper(ctx, None)
    rep.ob(not [e for e in evs if e.kind in ("batch", "add_evals")] and any(e.kind == "raise" for e in evs), "input", w,
           "a request that is not a dict is rejected")
    # ---- the history files values under the indices that it is given
    hist.add_evals(ctx, rep, only=("append", "mapping", "aggregate"), rule="filed")
    # ---- the criterion is not called anywhere else
    for m in ctx.mains():
        direct = [e for e in m.it.events if e.kind == "opaque" and (is_crit(e.data["func"]) or any(is_crit(x) for x in e.data["args"]))]
        wr = [e for e in m.it.events if e.kind == "wrapcriterion"]
        rep.ob(not direct and len(wr) == 1 and is_crit(wr[0].data["bound"].get("criterion")), "only",
               ctx.project.rel(m.loop.module), "the criterion function only reaches the wrapper",
               show(direct[0].data["result"]) if direct else f"{len(wr)} wrappers")
        if wr:
            rep.ob(wr[0].data["bound"].get("n_cores") in (S("n_cores"), T.call("int", S("n_cores"))), "cores", ctx.project.rel(m.loop.module),
                   "the configured number of cores is passed on", show(wr[0].data["bound"].get("n_cores", T.NONE)))


def is_crit(t):
    return isinstance(t, T.Term) and (t is S("criterion") or (t.op == "role" and t.args[0] == "criterion"))


def values(ctx, rep, w, evals, result, it, fv):
    t = unlist(evals)
    e = elem(result)
    if t.op == "call" and t.args[0].startswith("numpy.nan_to_num"):
        # applied to the whole batch at once
        inner = unlist(t.args[1][0])
        if inner.op == "map":
            t = T.mk("map", inner.args[0], inner.args[1], T.mk("call", t.args[0], (inner.args[2],) + t.args[1][1:], *t.args[2:]), inner.args[3])
    if not (t.op == "map" and t.args[0] is result and t.args[3] is T.TRUE):
        rep.ob(False, "filed", w, "every value of the batch is stored, in order", show(evals))
        return
    rep.ob(True, "filed", w, "every value of the batch is stored, in order")
    v = T.subst(free_of_binders(t.args[2], e), {t.args[1]: e})
    lits = [s for s in T.subterms(v) if s.op == "isinst" and s.args[0] is e and s.args[1] == "str"]
    isstr = lits[0] if lits else T.NONE
    ok_fail = ok_shape = ok_val = True
    d1 = d2 = d3 = ""
    n = 0
    for path, (x,) in eqv.rows([v]):
        n += 1
        s = dict((c, z) for c, z in path).get(isstr)
        inner, repl = unnan(x)
        if s is True:
            full = inner
            if not (full.op == "call" and full.args[0] in ("numpy.full", "numpy.full_like")):
                ok_fail, d1 = False, show(x)
                continue
            val = full.args[1][1] if len(full.args[1]) > 1 else dict(full.args[2]).get("fill_value", T.NONE)
            if T._inf_like(val) and not T.neg(val) is T.const(float("inf")) and is_posinf(val):
                pass
            elif is_nan(val) and repl and is_posinf(repl["nan"]):
                pass
            else:
                ok_fail, d1 = False, show(x)
            sh = full.args[1][0]
            if not shape_ok(sh, result, path, it, fv):
                ok_shape, d2 = False, show(sh) + " " + eqv.explain(path)
        else:
            if inner is not e or repl is None or not is_posinf(repl["nan"]) or not is_posinf(repl["posinf"]) or not is_posinf(T.neg(repl["neginf"])):
                ok_val, d3 = False, show(x)
    rep.ob(ok_fail and bool(lits), "failures", w, "a failed call is stored as +inf", d1)
    rep.ob(ok_shape, "shape", w, "a failed call is stored with the shape of a successful one", d2)
    rep.ob(ok_val, "values", w, "stored value of a call", d3)


def is_posinf(t):
    return T.is_num(t) and T.cval(t) == float("inf")


def is_nan(t):
    return T.is_num(t) and T.cval(t) != T.cval(t) or (t.op == "call" and t.args[0] == "nan")


def unnan(x):
    if x.op == "call" and x.args[0] == "numpy.nan_to_num":
        kw = dict(x.args[2]) if len(x.args) > 2 else {}
        return x.args[1][0], {k: kw.get(k, T.ZERO if k == "nan" else T.NONE) for k in ("nan", "posinf", "neginf")}
    return x, None


B, GOOD = S("bound element"), S("no error message")


def free_of_binders(t, e):
    """Rename the bound elements of selections from the batch."""
    m = {}
    for u in T.subterms(t):
        if u.op == "map" and u.args[1] is e:
            m[u] = T.mk("map", u.args[0], B, T.subst(u.args[2], {e: B}), GOOD if is_good(u.args[3], e) else S("other elements"))
    return T.subst(t, m) if m else t


def good_ones(t, result):
    """The evaluations of the batch that are no error messages."""
    t = unlist(t)
    return t.op == "map" and t.args[0] is result and t.args[2] is t.args[1] and t.args[3] is GOOD


def is_good(g, e):
    return g is T.tnot(T.mk("isinst", e, "str"))


def found_good(path, result, it):
    """Whether the path says that there is a successful evaluation: True, False or None."""
    for c, v in path:
        if c.op == "brk":
            loop = it.loops.get(c.args[0])
            k = c.args[1]
            if loop is None or loop.iter is not result:
                continue
            gs = [g for g, st in loop.breaks]
            if len(gs) == 1 and is_good(gs[0], elem(result)):
                return v
        elif c.op in ("truth", "bool") and good_ones(c.args[0], result):
            return v
        elif c.op == "cmp" and c.args[0] == "==" and T.NONE in c.args:
            o = c.args[2] if c.args[1] is T.NONE else c.args[1]
            if o.op == "call" and o.args[0] == "next" and o.args[1][1:] == (T.NONE,) and good_ones(o.args[1][0], result):
                return v is False
        else:
            n = [u for u in T.subterms(c) if u.op == "call" and u.args[0] == "len" and good_ones(u.args[1][0], result)]
            if n and isinstance(v, bool):
                try:
                    if T.subst(c, {n[0]: T.ZERO}) is T.const(v):
                        return False
                    if T.subst(c, {n[0]: T.ZERO}) is T.const(not v):
                        return True
                except Exception:
                    pass
            elif n and v in ("+", "-", "0", 1, -1, 0):
                return v not in ("0", 0)
    return None


def shape_ok(sh, result, path, it, fv):
    """Shape of another element of the batch, else of the stored vectors, else a scalar."""
    found = found_good(path, result, it)
    while sh.op == "call" and sh.args[0] in ("tuple", "numpy.shape") and len(sh.args[1]) == 1:
        sh = sh.args[1][0]
    if sh.op == "attr" and sh.args[1] == "shape":
        x = sh.args[0]
        while x.op == "call" and x.args[0] in ("numpy.asarray", "numpy.array", "numpy.atleast_1d") and len(x.args[1]) == 1:
            x = x.args[1][0]
        if x is elem(result):
            return found is True and any(c.op == "brk" and v is True for c, v in path)
        if x.op == "item" and good_ones(x.args[0], result) or x.op == "call" and x.args[0] == "next" and good_ones(x.args[1][0], result):
            return found is True
        if x.op == "item" and x.args[0] is fv and T.is_num(x.args[1]):
            return found is False and not says_scalar(path)
        return False
    empty = any(c.op == "cmp" and c.args[0] == "==" and T.NONE in c.args and fv in c.args and v is True for c, v in path)
    if sh is T.mk("tuple"):
        return found is False and (says_scalar(path) or empty)
    rest = sh.op == "item" and sh.args[1].op == "slice" and sh.args[1].args == (T.ONE, T.NONE, T.NONE) or sh.op == "call" and sh.args[0] == "rest" and sh.args[1][1] is T.ONE
    if rest:
        b = sh.args[0] if sh.op == "item" else sh.args[1][0]
        return found is False and b.op == "attr" and b.args[1] == "shape" and b.args[0] is fv and not says_scalar(path)
    return False


def says_scalar(path):
    return any(c.op == "cmp" and c.args[0] == "==" and T.const("scalar") in c.args and v is True for c, v in path)

