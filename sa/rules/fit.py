"""C06: infinite values are replaced before a model is fitted."""
import math

from .. import eqv, lemma, terms as T
from ..interp import Interp
from ..project import Broken
from ..report import show
from ..values import Ext, Func, Hooked, Partial, Ref, Val
from .common import subject

S = T.sym
CLASSES = ("finite", "nan", "+inf", "-inf")


def kwargs_of(t):
    return dict(t.args[2]) if len(t.args) > 2 else {}


def class_test(c, x, cls):
    """Truth of an elementwise test on x for values of a class, or None."""
    if c.op in ("not", "and", "or"):
        v = [class_test(a, x, cls) for a in c.args]
        if c.op == "not":
            return None if v[0] is None else not v[0]
        if c.op == "and":
            return False if False in v else None if None in v else True
        return True if True in v else None if None in v else False
    if c.op == "call" and c.args[0] in ("invert", "numpy.logical_not"):
        v = class_test(c.args[1][0], x, cls)
        return None if v is None else not v
    if c.op == "call" and len(c.args[1]) == 1 and c.args[1][0] is x:
        n = c.args[0].split(".")[-1]
        return {"isfinite": cls == "finite", "isnan": cls == "nan", "isinf": cls in ("+inf", "-inf"),
                "isposinf": cls == "+inf", "isneginf": cls == "-inf"}.get(n)
    if c.op == "cmp" and c.args[0] == "==" and x in c.args[1:]:
        o = c.args[2] if c.args[1] is x else c.args[1]
        if T.is_num(o) and T.is_const(o) and math.isinf(T.cval(o)):
            return cls == ("+inf" if T.cval(o) > 0 else "-inf")
        if o is x:
            return cls != "nan"
    return None


def by_class(t, x, cls):
    """Value of an elementwise expression for elements of x in a class."""
    if t is x:
        return t
    if t.op == "call" and t.args[0] == "numpy.nan_to_num":
        kw = kwargs_of(t)
        v = by_class(t.args[1][0], x, cls)
        if v is not x:
            return v
        if cls == "finite":
            return x
        k = {"nan": "nan", "+inf": "posinf", "-inf": "neginf"}[cls]
        return kw.get(k, T.ZERO if cls == "nan" else T.mk("float-max", cls))
    if t.op == "ite" or (t.op == "call" and t.args[0] == "numpy.where" and len(t.args[1]) == 3):
        c, a, b = t.args if t.op == "ite" else t.args[1]
        v = class_test(c, x, cls)
        if v is not None:
            return by_class(a if v else b, x, cls)
    return t


def pieces(t):
    """Elementwise functions as case distinctions."""
    for _ in range(8):
        m = {}
        for s in T.subterms(t):
            if s.op != "call":
                continue
            n, a = s.args[0], s.args[1]
            if n == "numpy.where" and len(a) == 3:
                m[s] = T.ite(T.truth(a[0]), a[1], a[2])
            elif n in ("numpy.abs", "numpy.absolute", "abs", "numpy.fabs") and len(a) == 1:
                m[s] = T.ite(T.cmp("<", a[0], T.ZERO), T.neg(a[0]), a[0])
            elif n == "numpy.sign" and len(a) == 1:
                m[s] = T.ite(T.cmp("<", a[0], T.ZERO), T.const(-1), T.ite(T.cmp("==", a[0], T.ZERO), T.ZERO, T.ONE))
            elif n == "numpy.maximum" and len(a) == 2:
                m[s] = T.ite(T.cmp("<", a[0], a[1]), a[1], a[0])
            elif n == "numpy.minimum" and len(a) == 2:
                m[s] = T.ite(T.cmp("<", a[0], a[1]), a[0], a[1])
            elif n == "numpy.isclose" or n == "numpy.any":
                continue
        # innermost first
        inner = {k: v for k, v in m.items() if not any(u is not k and u in m for u in T.subterms(k))}
        if not inner:
            break
        t = T.subst(t, inner)
    for _ in range(8):
        t, ch = eqv.expand_minmax(t)
        if not ch:
            break
    return t


def extremes(ts, x):
    """The masked column maximum and minimum of the finite entries of x."""
    out = {}
    mask = T.call("numpy.isfinite", x)
    for t in ts:
        for s in T.subterms(t):
            if s.op == "call" and s.args[0] in ("numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "numpy.nanmax", "numpy.nanmin"):
                kw = kwargs_of(s)
                if s.args[1][0] is x:
                    up = "max" in s.args[0]
                    good = kw.get("axis") is T.ZERO and kw.get("where") is mask and "initial" in kw and T.is_num(kw["initial"])
                    out.setdefault("max" if up else "min", []).append((s, kw.get("initial"), good))
    return out


def check_C06(ctx, rep):
    rep.rule("finite", "finite values are not changed")
    rep.rule("worse", "+inf and NaN become a finite value above every finite value of the column")
    rep.rule("better", "-inf becomes a finite value below every finite value of the column")
    rep.rule("empty", "without any finite value the replacements are finite and keep their order")
    rep.rule("first", "the fit methods only receive values that passed the infinity handling")
    rep.rule("selected", "the fit function is built with the requested infinity handling")
    for h in handlers(ctx):
        check_handler(ctx, rep, h)
    template(ctx, rep)


def handlers(ctx):
    it = Interp(ctx.project, {})
    f = it.find_func("get_infinity_handler")
    st = lemma.start(it, f.module)
    out = []
    from ..interp import elem  # noqa
    # the registry of built-ins
    from ..values import DictS
    import ast
    for n in ast.walk(f.node):
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) for k in n.keys):
            for k in n.keys:
                s2 = lemma.start(it, f.module)
                v = it.resolve(it.call(f, [Val(T.const(k.value))], {}, s2, f.node), s2)
                if isinstance(v, Func):
                    out.append((k.value, v))
    if not out:
        for k in ("relative",):
            v = it.resolve(it.call(f, [Val(T.const(k))], {}, st, f.node), st)
            if isinstance(v, Func):
                out.append((k, v))
    if not out:
        raise Broken("built-in infinity handlers not found")
    ctx.count(it)
    return out


def check_handler(ctx, rep, h):
    name, f = h
    x = S(lemma.params(f)[0])
    it, st, v = subject(ctx, f)
    w = f"{ctx.project.rel(f.module)}:{f.name}"
    out = it.tm(v, st)
    cl = {c: by_class(out, x, c) for c in CLASSES}
    rep.ob(cl["finite"] is x, "finite", w, f"[{name}] finite values", show(cl["finite"]))
    ex = extremes([cl[c] for c in CLASSES], x)
    if not ("max" in ex and "min" in ex):
        rep.ob(False, "worse", w, f"[{name}] replacement values relate to the finite values of the column", show(cl["+inf"]))
        return
    for k in ("max", "min"):
        ok = all(g for _, _, g in ex[k]) and len({s for s, _, _ in ex[k]}) == 1
        rep.ob(ok, "worse" if k == "max" else "better", w, f"[{name}] {k}imum of the finite values of each column", show(ex[k][0][0]))
    M, Mi, gm = ex["max"][0]
    m, mi, gn = ex["min"][0]
    if not (gm and gn):
        return
    d = T.sub(M, m)
    ok_sent = T.cval(Mi) < 0 < T.cval(mi)
    rep.ob(ok_sent, "empty", w, f"[{name}] start values of the masked extremes", f"{show(Mi)}, {show(mi)}")
    goals = [("nan", "worse", lambda t: T.sub(t, M)), ("+inf", "worse", lambda t: T.sub(t, M)), ("-inf", "better", lambda t: T.sub(m, t))]
    for c, rule, goal in goals:
        g = pieces(goal(cl[c]))
        ok, det = True, ""
        for path, (t,) in eqv.rows([g]):
            s = sign_of(d, path)
            if s is not None and s < 0:
                continue  # no finite value in the column
            if s == 0:
                t = T.subst(t, eqv.zero_subst(d))
            if not positive(t, M, m):
                ok, det = False, eqv.explain(path) + show(t)
        rep.ob(ok, rule, w, f"[{name}] {c} becomes {'larger' if rule == 'worse' else 'smaller'} than every finite value", det)
    vals = {}
    for c in ("nan", "+inf", "-inf"):
        t = T.subst(pieces(cl[c]), {M: Mi, m: mi})
        vals[c] = [r[1][0] for r in eqv.rows([t])]
    flat = [v for vs in vals.values() for v in vs]
    ok = all(T.is_num(v) and T.is_const(v) and abs(T.cval(v)) < 10**308 for v in flat)
    ok = ok and all(T.cval(a) > T.cval(b) for a in vals["+inf"] for b in vals["-inf"])
    rep.ob(ok, "empty", w, f"[{name}] a column without finite values", "; ".join(show(v) for v in flat[:3]))


def sign_of(d, path):
    for p, s in path:
        if isinstance(s, bool):
            continue
        if p is d or T.alg_equal(p, d):
            return s
        if T.alg_equal(p, T.neg(d)):
            return -s
    return None


def positive(t, M, m):
    """t > 0 given M >= m, for t = a (M - m) + c."""
    s = T.to_sum(t)
    c = 0
    co = {M: 0, m: 0}
    for mono, v in s.items():
        if mono == ():
            c = v
        elif len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in co:
            co[mono[0][0]] = v
        else:
            return False
    return c > 0 and co[M] == -co[m] and co[M] >= 0


def template(ctx, rep):
    """Data flow of the criterion values inside the fit function."""
    it = Interp(ctx.project, {})
    it.components, it.added, it.versions = [], {}, {}
    f = it.find_func("get_fitter")
    seen = {}
    from .. import models
    it.hooks.update({"tranquilo.get_component.get_component": models.component}) if hasattr(it, "hooks") else None
    st = lemma.start(it, f.module)
    from ..values import Val as V
    a = {k: V(S(k)) for k in lemma.params(f)}
    hname = handlers(ctx)[0]
    a["infinity_handling"] = V(T.const(hname[0]))
    a["residualize"] = V(S("residualize"))
    a["model_type"] = V(T.const("quadratic"))
    r = it.resolve(it.call(f, [], a, st, f.node), st)
    w = f"{ctx.project.rel(f.module)}:{f.name}"
    calls = []

    def comp(interp, c, args, kwargs, s, node):
        calls.append((args, {k: interp.tm(v, s) for k, v in kwargs.items()}, [interp.tm(v, s) for v in args]))
        return Val(interp.ev_term("coef"), frozenset({interp.newloc("coef")}))

    it.comp_call = comp
    clip_terms = set()
    hf = hname[1]

    def clip(interp, s, f_, args, kwargs, node):
        b = interp.bind(f_, args, kwargs, s, node)
        t = T.call("clipped", interp.tm(next(iter(b.values())), s))
        clip_terms.add(t)
        return Val(t, frozenset({interp.newloc("clip")}))

    it.hooks[hf.qual] = clip
    reg = models  # noqa
    from .common import region_rec, sym_rec
    region = region_rec(it, st, "region")
    old = sym_rec(it, "VectorModel", "old")
    p = lemma.params(r.func) if isinstance(r, Partial) else lemma.params(r)
    args = {"region": region, "old_model": old}
    kw = {k: args.get(k) or Val(S(k), frozenset({"param:" + k})) for k in p
          if k in ("x", "y", "region", "old_model", "weights")}
    if "y" not in kw:
        raise Broken("the fit function lost its argument y")
    it.call(r, [], kw, st, f.node)
    ctx.count(it)
    rep.ob(bool(clip_terms), "selected", w, "the requested infinity handling is applied by the fit function", "never applied" if not clip_terms else "")
    rep.ob(len(calls) >= 1, "first", w, f"{len(calls)} call(s) of the fit method found")
    y = S("y")
    for args, kws, ts in calls:
        bad = [k for k, t in list(kws.items()) + list(enumerate(ts)) if leaks(t, y)]
        rep.ob(not bad, "first", w, "data handed to the fit method", "unhandled values in " + ", ".join(map(str, bad)) if bad else "")
        rep.ob(any(any(u.op == "call" and u.args[0] == "clipped" for u in T.subterms(t)) for t in list(kws.values()) + ts), "first", w,
               "the fit method receives the handled values")
    # the option of the user reaches the fit function
    m = ctx.abstract()
    g = [e for e in m.it.events if e.kind == "getrole" and e.data["role"] == "fit"]
    ok = len(g) == 1 and g[0].data["bound"].get("infinity_handling") is S("infinity_handler")
    rep.ob(ok, "selected", loop_module(ctx), "the infinity handling option is passed on", show(g[0].data["bound"].get("infinity_handling", T.NONE)) if g else "no fitter")


def loop_module(ctx):
    it = Interp(ctx.project, {})
    return ctx.project.rel(it.find_func("process_arguments").module) + ":process_arguments"


def leaks(t, y):
    """Does t contain values of y that were not handled?"""
    if t is y:
        return True
    if t.op == "call" and t.args[0] in ("clipped", "len"):
        return False
    if t.op == "attr" and t.args[1] in ("shape", "ndim", "size"):
        return False
    for a in t.args:
        if isinstance(a, T.Term) and leaks(a, y):
            return True
        if isinstance(a, tuple) and any(leaks(b, y) for b in flatten(a)):
            return True
    return False


def flatten(a):
    for b in a:
        if isinstance(b, T.Term):
            yield b
        elif isinstance(b, tuple):
            yield from flatten(b)
