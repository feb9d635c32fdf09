"""C18: trustregions are spheres or cubes cut at the bounds; their maps are inverse to each other."""
from fractions import Fraction

from .. import lemma, terms as T
from ..interp import Interp
from ..project import Broken
from ..report import show
from ..values import Rec, Val

S = T.sym
C, R, LO, UP = S("g.center"), S("g.radius"), S("g.lower"), S("g.upper")
D = T.call("len", C)
ANY = {"any", "numpy.any"}
ALL = {"all", "numpy.all"}


# ------------------------------------------------------------------ logarithms
def log_of(t, depth=0):
    """Normal form of the logarithm of a positive expression."""
    if depth > 30:
        raise Broken("logarithm too deep")
    if t.op == "call":
        n, a = str(t.args[0]).split(".")[-1], t.args[1]
        if n == "exp":
            return log_inside(a[0])
        if n == "sqrt":
            return T.mul(T.const(0.5), log_of(a[0], depth + 1))
        if n == "pow":
            return T.mul(log_inside(a[1]), log_of(a[0], depth + 1))
        if n == "gamma":
            return T.call("loggamma", log_inside(a[0]))
    d = T.to_sum(t)
    if len(d) == 1:
        (m, c), = d.items()
        out = _log_num(c)
        for x, e in m:
            out = T.add(out, T.mul(T.const(e), log_of(x, depth + 1) if x is not t else T.call("log", x)))
        return out
    return T.call("log", t)


def _log_num(c):
    if c <= 0:
        return T.call("log", T.num_const(c))
    out = T.ZERO
    for k, s in ((Fraction(c).numerator, 1), (Fraction(c).denominator, -1)):
        p = 2
        while k > 1 and p < 10000:
            while k % p == 0:
                out = T.add(out, T.mul(T.const(s), T.call("log", T.const(p))))
                k //= p
            p += 1
    return out


def log_inside(t):
    """Logarithms inside an expression in normal form."""
    if t.op == "call":
        n, a = str(t.args[0]).split(".")[-1], t.args[1]
        if n == "log":
            return log_of(a[0])
        if n == "log2":
            return T.div(log_of(a[0]), T.call("log", T.const(2)))
        if n in ("loggamma", "gammaln", "lgamma"):
            return T.call("loggamma", log_inside(a[0]))
        if n == "len":
            return T.call(n, *a)
        return t
    if t.op == "sum":
        out = T.ZERO
        for c, m in t.args:
            x = T.num_const(c)
            for a, e in m:
                y = log_inside(a)
                for _ in range(abs(e)):
                    x = T.mul(x, y) if e > 0 else T.div(x, y)
            out = T.add(out, x)
        return out
    return t


def dims(t):
    """All spellings of the number of parameters become one."""
    m = {}
    for u in T.subterms(t):
        if u.op == "attr" and u.args[0] is C and u.args[1] == "size":
            m[u] = D
        if u.op == "item" and u.args[0].op == "attr" and u.args[0].args[0] is C and u.args[0].args[1] == "shape":
            m[u] = D
    return T.subst(t, m) if m else t


def log_same(t, want):
    return T.alg_equal(log_inside(log_of(dims(t))), log_inside(want))


# ------------------------------------------------------------------ conditions
def scalar(t):
    """A single number, as opposed to one per parameter."""
    if t is R or T.is_const(t) or T.is_num(t):
        return True
    if t.op == "call":
        return str(t.args[0]).split(".")[-1] in ("min", "max", "amin", "amax", "len", "norm", "any", "all", "exp", "log", "bool", "float")
    if t.op == "sum":
        return all(scalar(a) for c, m in t.args for a, e in m)
    if t.op == "cmp":
        return T.NONE in t.args[1:] or all(scalar(x) for x in t.args[1:])
    if t.op in ("and", "or", "not"):
        return all(scalar(x) for x in t.args)
    return False


def exists(c, neg=False):
    """'some entry fulfils c' in terms of named conditions."""
    if c.op == "not":
        return exists(c.args[0], not neg)
    if c.op == "call" and str(c.args[0]).split(".")[-1] == "isfinite" and not neg:
        return T.truth(T.call("some-finite", c.args[1][0]))
    if c.op == "call" and str(c.args[0]).split(".")[-1] == "isinf" and neg:
        return T.truth(T.call("some-finite", c.args[1][0]))
    if c.op == "call" and str(c.args[0]).split(".")[-1] in ("isfinite", "isinf"):
        return T.truth(T.call("some-infinite", c.args[1][0]))
    if c.op == "cmp" and c.args[0] in ("<", "<="):
        op, a, b = c.args
        if neg:
            op, a, b = ("<=" if op == "<" else "<"), b, a
        return T.truth(T.call("some", T.const(op), T.sub(a, b)))
    if c.op == "or" and not neg or c.op == "and" and neg:
        return T.tor(*[exists(a, neg) for a in c.args])
    if c.op == "and" and not neg or c.op == "or" and neg:
        s = [a for a in c.args if scalar(a)]
        v = [a for a in c.args if not scalar(a)]
        if len(v) == 1 and not neg:
            return T.tand(*[named(a) for a in s], exists(v[0]))
    raise Broken(f"condition outside of the fragment: {show(c)}")


def named(c):
    """Conditions with quantifiers replaced by named ones."""
    if c.op in ("and", "or"):
        return (T.tand if c.op == "and" else T.tor)(*[named(a) for a in c.args])
    if c.op == "not":
        return T.tnot(named(c.args[0]))
    if c.op == "call" and str(c.args[0]) in ANY | {"any", "bool"} or (c.op == "call" and str(c.args[0]).split(".")[-1] == "any"):
        a = c.args[1][0]
        return named(a) if scalar(a) else exists(a)
    if c.op == "call" and str(c.args[0]).split(".")[-1] == "all":
        a = c.args[1][0]
        return named(a) if scalar(a) else T.tnot(exists(a, True))
    if c.op == "cmp" and c.args[0] in ("<", "<="):
        op, a, b = c.args
        for x, o, s in ((a, b, 1), (b, a, -1)):
            if x.op == "call" and str(x.args[0]).split(".")[-1] in ("min", "max", "amin", "amax") and len(x.args[1]) == 1 and scalar(o):
                mn = "min" in str(x.args[0])
                e = T.sub(x.args[1][0], o)
                e = e if s == 1 else T.neg(e)
                if mn == (s == 1):  # min(e) <= o: some entry does
                    return T.truth(T.call("some", T.const(op), e))
                return T.tnot(T.truth(T.call("some", T.const("<" if op == "<=" else "<="), T.neg(e))))  # every entry does
    if c.op == "ite":
        return T.ite(named(c.args[0]), named(c.args[1]), named(c.args[2]))
    return c


def conditions(t):
    """All conditions of a value named."""
    for _ in range(40):
        m = {}
        for u in T.subterms(t):
            if u.op == "ite" and not any(v.op == "ite" for v in T.subterms(u.args[0])):
                n = named(u.args[0])
                if n is not u.args[0]:
                    m[u.args[0]] = n
        if not m:
            return named(t) if T._boolish(t) else t
        t = T.subst(t, m)
    return t


FINITE = {"lower": T.truth(T.call("some-finite", LO)), "upper": T.truth(T.call("some-finite", UP))}
NEAR = {"lower": T.sub(T.sub(C, LO), R), "upper": T.sub(T.sub(UP, C), R)}


def rows():
    """(description, substitution, shape) for all kinds of bounds."""
    opts = {}
    for side, b in (("lower", LO), ("upper", UP)):
        none = T.cmp("==", T.NONE, b)
        near = [T.truth(T.call("some", T.const("<="), NEAR[side]))]
        opts[side] = [
            (f"no {side} bounds", {none: T.TRUE, FINITE[side]: T.FALSE, near[0]: T.FALSE}, False, (False, False)),
            (f"infinite {side} bounds", {none: T.FALSE, FINITE[side]: T.FALSE, near[0]: T.FALSE}, False, (True, False)),
            (f"distant {side} bounds", {none: T.FALSE, FINITE[side]: T.TRUE, near[0]: T.FALSE}, False, (True, True)),
            (f"near {side} bounds", {none: T.FALSE, FINITE[side]: T.TRUE, near[0]: T.TRUE}, True, (True, True)),
        ]
    for a in opts["lower"]:
        for b in opts["upper"]:
            yield f"{a[0]}, {b[0]}", {**a[1], **b[1]}, a[2] or b[2], a[3], b[3]


def make_region(ctx, with_bounds=True):
    it = Interp(ctx.project, {})
    ci = it.find_class("Region")
    st = lemma.start(it, ci.module)
    b = it.construct(it.find_class("Bounds"), [], {"lower": Val(LO), "upper": Val(UP)}, st, None) if with_bounds else Val(T.NONE)
    r = it.construct(ci, [], {"center": Val(C), "radius": Val(R), "bounds": b}, st, None)
    return it, st, r, f"{ctx.project.rel(ci.module)}:{ci.name}"


def value(it, st, r, k):
    return it.resolve(it.getattr(r, k, st, None), st)


def at(t, sub):
    """Value of a term in a row."""
    t = conditions(t)
    for _ in range(6):
        n = T.subst(t, sub)
        n = conditions(n)
        if n is t:
            break
        t = n
    return t


def strip_clip(t, allowed):
    """Value without clipping at the allowed values."""
    while True:
        if t.op in ("min", "max"):
            rest = [a for a in t.args if not any(a is b or T.alg_equal(a, b) for b in allowed)]
            if len(rest) == 1 and len(t.args) > 1:
                t = rest[0]
                continue
        if t.op == "call" and str(t.args[0]).split(".")[-1] in ("clip", "minimum", "maximum"):
            n = str(t.args[0]).split(".")[-1]
            kw = dict(t.args[2])
            lims = list(t.args[1][1:]) + list(kw.values())
            if all(a is T.NONE or T._inf_like(a) or any(a is b for b in allowed) for a in lims):
                t = t.args[1][0]
                continue
        return t


def check_C18(ctx, rep):
    rep.rule("shape", "a region is a cube exactly if a bound is not farther from the centre than the radius, otherwise a sphere")
    rep.rule("size", "the cube has the volume of the sphere and is cut at the bounds")
    rep.rule("frame", "effective centre and radius describe the region; maps from and to the unit region are inverse to each other")
    rep.rule("bounds", "bounds count exactly if some entry is finite")
    rep.rule("volume", "volumes and radii of spheres and cubes are inverse to each other")
    it, st, r, w = make_region(ctx)
    shape = it.tm(value(it, st, r, "shape"), st)
    ec, er = (it.tm(value(it, st, r, k), st) for k in ("effective_center", "effective_radius"))
    s2 = st.copy()  # asking a sphere for its cube raises
    lo, up = (it.tm(it.getattr(value(it, s2, r, "cube_bounds"), k, s2, None), s2) for k in ("lower", "upper"))
    to = it.tm(it.call(it.getattr(r, "map_to_unit", st, None), [Val(S("x"))], {}, st, None), st)
    fr = it.tm(it.call(it.getattr(r, "map_from_unit", st, None), [Val(S("u"))], {}, st, None), st)
    ctx.count(it)
    n_rows = 0
    for what, sub, cube, la, ua in rows():
        n_rows += 1
        want = "cube" if cube else "sphere"
        got = at(shape, sub)
        if not rep.ob(got is T.const(want), "shape", w, f"{want} for {what}", show(got)):
            continue
        e_c, e_r = at(ec, sub), at(er, sub)
        low, upp = at(lo, sub), at(up, sub)
        if cube:
            radii = set()
            for b, c, s, (given, finite), nm in ((low, LO, 1, la, "lower"), (upp, UP, -1, ua, "upper")):
                raw = strip_clip(b, [c])
                cut = raw is not b
                rep.ob(cut == given or (given and not finite), "size", w, f"{nm} side is cut at the {nm} bound: {what}", show(b))
                radii.add(T.mul(T.const(s), T.sub(C, raw)))
                if cut and b.op in ("min", "max"):
                    rep.ob(b.op == ("max" if s == 1 else "min"), "size", w, f"{nm} side is cut in the right direction: {what}", show(b))
            want_r = T.sub(T.add(T.call("log", R), T.mul(T.const(0.5), T.call("log", T.PI))),
                           T.add(T.call("log", T.const(2)), T.div(T.call("loggamma", T.add(T.mul(T.const(0.5), D), T.ONE)), D)))
            for q in radii:
                rep.ob(log_same(q, want_r), "size", w, f"the cube has the volume of the sphere: {what}", show(q))
            rep.ob(T.alg_equal(e_c, T.mul(T.const(0.5), T.add(low, upp))), "frame", w, f"effective centre is the centre of the cube: {what}", show(e_c))
            rep.ob(T.alg_equal(e_r, T.mul(T.const(0.5), T.sub(upp, low))), "frame", w, f"effective radius is half of the sides: {what}", show(e_r))
            allowed = [low, upp, LO, UP] + [a for b in (low, upp) if b.op in ("min", "max") for a in b.args]
        else:
            rep.ob(e_c is C, "frame", w, f"effective centre is the centre: {what}", show(e_c))
            rep.ob(e_r is R, "frame", w, f"effective radius is the radius: {what}", show(e_r))
            allowed = [LO, UP]
        tt, ff = at(to, sub), strip_clip(at(fr, sub), allowed)
        rep.ob(T.alg_equal(tt, T.div(T.sub(S("x"), e_c), e_r)), "frame", w, f"map to the unit region uses the effective centre and radius: {what}", show(tt))
        rep.ob(T.alg_equal(ff, T.add(e_c, T.mul(e_r, S("u")))), "frame", w, f"map from the unit region is its inverse: {what}", show(ff))
    it, st, r, w = make_region(ctx, False)
    rep.ob(it.tm(value(it, st, r, "shape"), st) is T.const("sphere"), "shape", w, "sphere without bounds")
    rep.ob(it.tm(value(it, st, r, "effective_center"), st) is C and it.tm(value(it, st, r, "effective_radius"), st) is R, "frame", w, "frame without bounds")
    replaced(ctx, rep)
    bounds_rule(ctx, rep)
    volume_rule(ctx, rep)


def replaced(ctx, rep):
    """A region with a replaced field is the region constructed with this field."""
    it, st, r, w = make_region(ctx)
    q = it.call(it.getattr(r, "_replace", st, None), [], {"radius": Val(S("r2")), "center": Val(S("c2"))}, st, None)
    ctx.count(it)
    for k in ("shape", "effective_center", "effective_radius"):
        t = T.subst(it.tm(value(it, st, r, k), st), {R: S("r2"), C: S("c2")})
        rep.ob(it.tm(value(it, st, q, k), st) is t, "frame", w + "._replace", f"{k} is recomputed when a region is changed")


def bounds_rule(ctx, rep):
    it = Interp(ctx.project, {})
    ci = it.find_class("Bounds")
    st = lemma.start(it, ci.module)
    b = it.construct(ci, [], {"lower": Val(LO), "upper": Val(UP)}, st, None)
    t = T.truth(it.tm(it.getattr(b, "has_any", st, None), st))
    ctx.count(it)
    w = f"{ctx.project.rel(ci.module)}:{ci.name}"
    for what, sub, _, la, ua in rows():
        got = at(t, sub)
        want = T.TRUE if la[1] or ua[1] else T.FALSE
        rep.ob(got is want, "bounds", w, f"has_any for {what}", show(got))


def volume_rule(ctx, rep):
    r, d, v = S("radius"), S("dim"), S("volume")
    half = T.mul(T.const(0.5), d)
    lg = lambda x: T.call("log", x)
    const = {"sphere": T.sub(T.mul(half, lg(T.PI)), T.call("loggamma", T.add(half, T.ONE))),
             "cube": T.mul(d, lg(T.const(2)))}
    from .common import subject
    for shape in ("sphere", "cube"):
        for func, args, want in (
            ("get_volume", {"radius": r, "dim": d}, T.add(const[shape], T.mul(d, lg(r)))),
            ("get_radius", {"volume": v, "dim": d}, T.div(T.sub(lg(v), const[shape]), d)),
        ):
            it, st, val = subject(ctx, func, {**args, "shape": T.const(shape)})
            w = f"{ctx.project.rel(it.find_func(func).module)}:{func}"
            t = it.tm(val, st)
            rep.ob(log_same(t, want), "volume", w, f"{shape}", show(t))
    s = S("scaling_factor")
    for func, p, a, b in (("get_radius_of_sphere_with_volume_of_cube", "cube_radius", "cube", "sphere"),
                          ("get_radius_of_cube_with_volume_of_sphere", "sphere_radius", "sphere", "cube")):
        for scaled in (False, True):
            it, st, val = subject(ctx, func, {p: S(p), "dim": d, "scaling_factor": s if scaled else T.NONE})
            w = f"{ctx.project.rel(it.find_func(func).module)}:{func}"
            t = T.subst(it.tm(val, st), {T.cmp("==", T.NONE, s): T.FALSE})
            want = T.add(lg(S(p)), T.div(T.sub(const[a], const[b]), d))
            if scaled:
                want = T.add(want, T.div(lg(s), d))
            rep.ob(log_same(t, want), "volume", w, "same volume" + (" times the factor" if scaled else ""), show(t))
    it, st, val = subject(ctx, "get_radius_after_volume_scaling", {"radius": r, "dim": d, "scaling_factor": s})
    w = f"{ctx.project.rel(it.find_func('get_radius_after_volume_scaling').module)}:get_radius_after_volume_scaling"
    t = it.tm(val, st)
    rep.ob(log_same(t, T.add(lg(r), T.div(lg(s), d))), "volume", w, "scaled volume", show(t))
