"""Idioms for arrays of points, rewritten to one form each.

The rows of two-dimensional arrays are points.  Norms of rows, columns made of
vectors, stacking and random draws each have several spellings in numpy.
"""
from . import terms as T


def short(t):
    return str(t.args[0]).replace("numpy.", "np.").split(".")[-1] if t.op == "call" else None


def _rows_axis(a):
    return a is not None and T.is_finite_num(a) and a.args[1] in (1, -1)


def _root(t):
    """x if t is x*x."""
    d = T.to_sum(t)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if c != 1 or not m or any(e % 2 for a, e in m):
        return None
    out = T.ONE
    for a, e in m:
        for _ in range(abs(e) // 2):
            out = T.mul(out, a) if e > 0 else T.div(out, a)
    return out


def _dist(c, fn):
    if c.op == "ite":
        return T.ite(c.args[0], _dist(c.args[1], fn), _dist(c.args[2], fn))
    return fn(c)


def norms(x, order):
    def one(o):
        if o is T.NONE or T.is_finite_num(o) and o.args[1] == 2:
            return T.call("norm2", x)
        if T._inf_like(o):
            return T.call("norminf", x)
        return T.call("norm", x, o)
    return _dist(order, one)


def column(v):
    return _dist(v, lambda u: T.call("column", u))


FULL = None


def _is_full(x):
    return x.op == "slice" and all(a is T.NONE for a in x.args)


DRAWS = {"normal": (("loc", 0), ("scale", 1), ("size", None)), "standard_normal": (("size", None),),
         "uniform": (("low", 0), ("high", 1), ("size", None)), "random": (("size", None),)}


def draw(t):
    """One form for random draws: ev(id, 'rng.normal', (rng, args ..., kw ...))."""
    name, ops = str(t.args[1]), list(t.args[2])
    if not name.startswith("rng."):
        return None
    n = name[4:]
    sig = DRAWS.get(n)
    if sig is None:
        return None
    g, pos, kw = ops[0], [], {}
    for a in ops[1:]:
        if a.op == "kw":
            kw[a.args[0]] = a.args[1]
        else:
            pos.append(a)
    b = {}
    for (k, d), a in zip(sig, pos):
        b[k] = a
    b.update(kw)
    for k, d in sig:
        b.setdefault(k, T.NONE if d is None else T.const(d))
    if n == "standard_normal":
        n, b["loc"], b["scale"] = "normal", T.ZERO, T.ONE
    if n == "random":
        n, b["low"], b["high"] = "uniform", T.ZERO, T.ONE
    a, c = (b["loc"], b["scale"]) if n == "normal" else (b["low"], b["high"])
    return T.call("draw." + n, g, a, c, b["size"])


def one(t):
    n = short(t)
    if t.op == "slice" and t.args[0] is T.ZERO and t.args[2] in (T.NONE, T.ONE):
        return T.mk("slice", T.NONE, t.args[1], T.NONE)
    if t.op == "cmp" and t.args[1] is T.ZERO and t.args[0] == "<" and _count(t.args[2]):
        return T.truth(t.args[2])
    if t.op == "ev":
        return draw(t) or t
    if t.op == "item" and t.args[1].op == "tuple" and len(t.args[1].args) == 2:
        a, b = t.args[1].args
        if _is_full(a) and b is T.NONE:
            return column(t.args[0])
    if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and t.args[1] is T.ZERO:
        return T.call("len", t.args[0].args[0])
    if n is None:
        return t
    a, kw = list(t.args[1]), dict(t.args[2])
    if n == "len" and a[0].op == "sum" and len(a[0].args) == 1:
        fs = [x for x, e in a[0].args[0][1] if short(x) != "column"]
        if len(fs) == 1 and len(fs) < len(a[0].args[0][1]):  # scaling rows keeps their number
            return T.call("len", fs[0])
    if n == "norm" and str(t.args[0]).endswith("linalg.norm"):
        order = kw.get("ord", a[1] if len(a) > 1 else T.NONE)
        axis = kw.get("axis", a[2] if len(a) > 2 else None)
        if _rows_axis(axis):
            r = norms(a[0], order)
            return column(r) if kw.get("keepdims") is T.TRUE else r
    if n in ("sqrt",) or n == "pow" and T.is_num(a[1]) and a[1].args[1] == 0.5:
        x = a[0]
        if short(x) == "sum" and _rows_axis(dict(x.args[2]).get("axis", x.args[1][1] if len(x.args[1]) > 1 else None)):
            r = _root(x.args[1][0])
            if r is not None:
                r = T.call("norm2", r)
                return column(r) if dict(x.args[2]).get("keepdims") is T.TRUE else r
    if n == "max" and len(a) == 1 and short(a[0]) in ("abs", "absolute", "fabs") and _rows_axis(kw.get("axis")):
        r = T.call("norminf", a[0].args[1][0])
        return column(r) if kw.get("keepdims") is T.TRUE else r
    if n == "sum" and len(a) == 1 and _rows_axis(kw.get("axis")):
        r = _root(a[0])
        if r is not None and not set(kw) - {"axis"}:
            q = T.call("norm2", r)
            return T.mul(q, q)
    if n == "reshape" and len(a) == 2 and a[1].op in ("tuple", "list"):
        sh = a[1].args
        if len(sh) == 2 and sh[1] is T.ONE and (sh[0] is T.const(-1) or sh[0] is T.call("len", a[0])):
            return column(a[0])
        if len(sh) == 1 and sh[0] is T.const(-1):
            return T.call("numpy.ravel", a[0])
    if n == "reshape" and len(a) == 2 and a[1] is T.const(-1):
        return T.call("numpy.ravel", a[0])
    if n == "expand_dims":
        ax = kw.get("axis", a[1] if len(a) > 1 else None)
        if _rows_axis(ax):
            return column(a[0])
    if n == "concat0":
        return T.call("vstack", *a)
    if n == "concatenate" and len(a) == 2 and a[1] is T.ZERO and a[0].op == "tuple":
        return T.call("vstack", *a[0].args)
    return t


def _count(t):
    """Number of pairs: never negative."""
    if short(t) != "floordiv" or not T.is_finite_num(t.args[1][1]):
        return False
    x = t.args[1][0]
    lens = [u for u in T.subterms(x) if short(u) == "len"]
    return any(T.alg_equal(x, T.mul(u, T.sub(u, T.ONE))) for u in lens)


def rewrite(t, memo=None, extra=None):
    """Bottom-up."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    ch = T.children(t)
    r = t
    if ch:
        m = {}
        for c in ch:
            n = rewrite(c, memo, extra)
            if n is not c:
                m[c] = n
        if m:
            r = _replace(t, m)
    out = one(r)
    if extra is not None:
        out = extra(out)
    memo[t] = out
    return out


def _replace(t, m):
    def go(a):
        if isinstance(a, T.Term):
            return m.get(a, a)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    return T.rebuild(t.op, tuple(go(a) for a in t.args))
