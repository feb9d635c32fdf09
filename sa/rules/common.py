"""Helpers shared by the rules."""
from .. import eqv, lemma, models, terms as T
from ..interp import Interp
from ..project import Broken
from ..values import Val


def components_of(ctx, func):
    """The components that a get_* function builds."""
    key = ("components", func)
    if key not in ctx._lemma:
        it = Interp(ctx.project, {"tranquilo.get_component.get_component": models.component})
        it.components = []
        f = it.find_func(func)
        st = lemma.start(it, f.module)
        it.call(f, [], {k: Val(T.sym(k)) for k in lemma.params(f)}, st, f.node)
        ctx.count(it)
        if not it.components:
            raise Broken(f"{func} does not build a component")
        ctx._lemma[key] = [c[0] for c in it.components]
    return ctx._lemma[key]


def component_of(ctx, func):
    c = components_of(ctx, func)
    if len(c) != 1 or not c[0].registry:
        raise Broken(f"{func}: registry of built-ins not found")
    return c[0]


def method_where(ctx, module, name):
    return ctx.project.rel(module) + ":" + name


def sym_rec(it, cls, prefix, fields=None):
    """A record of class `cls` whose fields are symbols."""
    from ..values import Rec
    ci = it.find_class(cls)
    fs = {f[0]: Val(T.sym(f"{prefix}.{f[0]}"), frozenset({f"param:{prefix}"})) for f in ci.fields}
    for k in (fields or {}):
        if k not in fs:
            raise Broken(f"{cls} has no field {k}")
    fs.update(fields or {})
    return Rec(ci, fs)


def region_rec(it, st, prefix):
    b = it.construct(it.find_class("Bounds"), [], {"lower": Val(T.sym(prefix + ".lower")), "upper": Val(T.sym(prefix + ".upper"))}, st, None)
    return it.construct(it.find_class("Region"), [], {"center": Val(T.sym(prefix + ".center")),
                                                       "radius": Val(T.sym(prefix + ".radius")), "bounds": b}, st, None)


def history_value(it, st):
    """A history with unknown previous content (role model)."""
    from ..values import InstS
    ref = it.construct(it.find_class("History"), [Val(T.sym("functype"))], {}, st, None)
    o = it.hobj(st, ref)
    a = dict(o.attrs)
    a["_nx"], a["_nf"] = Val(T.sym("nx0")), Val(T.sym("nf0"))
    st.heap[ref.loc] = InstS(o.cls, a)
    return ref


def oracle(ctx, name, args, hooks=None, make=None):
    """Value flow of a reference definition: (interp, state, term)."""
    it = Interp(ctx.project, hooks or {})
    f = it.find_func(name, "oracle")
    st = lemma.start(it, "oracle")
    a = make(it, st) if make else {}
    a.update({k: v if not isinstance(v, T.Term) else Val(v) for k, v in args.items()})
    for p in lemma.params(f):
        if p not in a:
            a[p] = Val(T.sym(p))
    r = it.call(f, [], a, st, f.node)
    if it.issues:
        raise Broken(f"oracle {name}: {it.issues[0]}")
    return it, st, it.tm(r, st)


def subject(ctx, func, args=None, hooks=None, make=None, module=None, assume=()):
    """Value flow of a function of the package: (interp, state, result value)."""
    it = Interp(ctx.project, hooks or {})
    it.components, it.added, it.versions = [], {}, {}
    f = it.find_func(func, module) if isinstance(func, str) else func
    st = lemma.start(it, f.module)
    for c, v in assume:
        st.assume(c, v)
    a = make(it, st) if make else {}
    a.update({k: v if not isinstance(v, T.Term) else Val(v, frozenset({f"param:{k}"})) for k, v in (args or {}).items()})
    ps = lemma.params(f)
    for k in list(a):
        if k not in ps:
            raise Broken(f"{f.name} lost its parameter {k}")
    for p in ps:
        if p not in a:
            a[p] = Val(T.sym(p), frozenset({f"param:{p}"}))
    r = it.call(f, [], a, st, f.node)
    ctx.count(it)
    return it, st, it.resolve(r, st)


def deep_same(x, y):
    """Equality of leaves: structure first, then algebra."""
    if x is y:
        return True
    if x.op == y.op and x.op in ("rec", "tuple", "list", "dict", "kv", "call") and len(x.args) == len(y.args):
        if all(_arg_same(a, b) for a, b in zip(x.args, y.args)):
            return True
    return T.alg_equal(x, y)


def _arg_same(a, b):
    if isinstance(a, T.Term) and isinstance(b, T.Term):
        return deep_same(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(_arg_same(p, q) for p, q in zip(a, b))
    return a == b


def same(rep, rule, where, text, got, want, impossible=None, limit=3000):
    try:
        ok, why = eqv.equal(got, want, impossible=impossible, same=deep_same, limit=limit)
    except eqv.TooBig:
        ok, why = False, "decision table too large: " + T.show(got)[:150]
    return rep.ob(ok, rule, where, text, why or "")


def magnitude(t):
    """Is t never negative: a norm, an absolute value or the largest, smallest, mean or sum of absolute values?"""
    if t.op != "call":
        return t.op == "abs"
    n = str(t.args[0]).split(".")[-1]
    if n in ("norm", "abs", "absolute", "fabs", "ptp"):
        return True
    return n in ("max", "amax", "nanmax", "min", "amin", "mean", "sum", "ravel", "flatten", "reshape") and bool(t.args[1]) and magnitude(t.args[1][0])


def magnitudes(t):
    """One spelling of the question whether a magnitude is zero."""
    m = {}
    for u in T.subterms(t):
        if u.op == "truth" and magnitude(u.args[0]):
            m[u] = T.tnot(T.cmp("==", T.ZERO, u.args[0]))
        elif u.op == "cmp" and len(u.args) == 3 and T.is_num(u.args[1]) and T.cval(u.args[1]) == 0 and magnitude(u.args[2]):
            z = T.cmp("==", T.ZERO, u.args[2])
            m[u] = {"<": T.tnot(z), "<=": T.TRUE}.get(u.args[0], u)
        elif u.op == "cmp" and len(u.args) == 3 and T.is_num(u.args[2]) and T.cval(u.args[2]) == 0 and magnitude(u.args[1]):
            z = T.cmp("==", T.ZERO, u.args[1])
            m[u] = {"<": T.FALSE, "<=": z}.get(u.args[0], u)
    return T.subst(t, m) if m else t


def positive(t, facts=()):
    """(True/False/None, reason): is t above zero under the facts (pairs of condition and truth value)?"""
    if T.is_num(t):
        return (T.cval(t) > 0, T.show(t))
    if t.op == "ite":
        c, a, b = t.args
        for f, v in facts:
            if f is c or f is T.tnot(c):
                return positive(a if (f is c) == v else b, facts)
        r = [positive(a, (*facts, (c, True))), positive(b, (*facts, (c, False)))]
        bad = [x for x in r if x[0] is False] or [x for x in r if x[0] is None]
        return bad[0] if bad else (True, "")
    if magnitude(t):
        for f, v in facts:
            if f.op == "not":
                f, v = f.args[0], not v
            if f.op == "cmp" and t in f.args[1:]:
                left = f.args[1] is t
                k = f.args[2 if left else 1]
                if not T.is_num(k):
                    continue
                k = T.cval(k)
                op = f.args[0]
                if op == "==" and v:
                    return (k > 0, f"{T.show(t)} is {k}")
                if op == "==" and k == 0 or (k > 0 or k == 0 and (op == "<") == v) and op in ("<", "<=") and left != v:
                    return (True, "")
        return (False, f"{T.show(t)} may be zero")
    if t.op == "sum":
        rs = []
        for c, m in t.args:
            for u, e in m:
                r = positive(u, facts)
                if r[0] is not True and (len(t.args) > 1 or r[0] is None):
                    return (None, T.show(t))
                if r[0] is False:
                    return r
            rs.append(c > 0)
        return (True, "") if all(rs) else (False if len(rs) == 1 else None, T.show(t))
    if t.op == "max":
        rs = [positive(u, facts) for u in t.args]
        return (True, "") if any(r[0] for r in rs) else next((r for r in rs if r[0] is None), rs[0])
    if t.op == "min":
        rs = [positive(u, facts) for u in t.args]
        return next((r for r in rs if r[0] is False), None) or next((r for r in rs if r[0] is None), (True, ""))
    return (None, T.show(t))


def at_break(t, loop, k, n=None):
    """Value of t when the loop is left through its k-th break (None: regularly)."""
    m = {}
    for j in range(len(loop.breaks)):
        m[T.mk("brk", loop.id, j)] = T.const(j == k)
    return T.subst(t, m)


def canon_map(it):
    """Calls of unknown functions as applications: result term -> apply(function, arguments); failures -> raises(application)."""
    m = {}

    def put(e):
        ft, at = T.subst(e.data["func"], m), [T.subst(a, m) for a in e.data["args"]]
        kt = [T.mk("kw", k, T.subst(v, m)) for k, v in sorted(e.data["kwargs"].items())]
        m[e.data["result"]] = dist(ft, lambda f: T.call("apply", f, T.mk("args", *at), T.mk("kwargs", *kt)))

    for e in it.events:
        if e.kind == "opaque" and e.data["result"] not in m:
            put(e)
        elif e.kind == "except":
            body = [b for b in e.data["body_events"] if b.kind == "opaque"]
            c = T.FALSE
            for b in body:
                if b.data["result"] not in m:
                    put(b)
                r = dist(m[b.data["result"]], lambda a: T.truth(T.call("raises", a)))
                c = T.tor(c, r if len(body) == 1 else T.tand(T.subst(b.guard, m), r))
            tid = e.data["tryid"]
            for u in list(collect_exc(it, tid)):
                m[u] = c
    return m


def collect_exc(it, tid):
    return [T.mk("exc", tid, i) for i in range(4)]


def dist(t, fn):
    if t.op == "ite":
        return T.ite(t.args[0], dist(t.args[1], fn), dist(t.args[2], fn))
    return fn(t)


def canon(it, t, extra=None):
    m = dict(canon_map(it))
    m.update(extra or {})
    for _ in range(3):
        n = T.subst(t, m)
        if n is t:
            break
        t = n
    return T.subst(t, integral(t))


def integral(t):
    return {s: T.const(int(T.cval(s))) for s in T.subterms(t)
            if s.op == "const" and isinstance(T.cval(s), float) and T.cval(s) == T.cval(s) and abs(T.cval(s)) < 1e15 and T.cval(s).is_integer()}


class Part:
    """Reports selected rules of another property as one rule of this one."""

    def __init__(self, rep, rule, only):
        self.rep, self.name, self.only = rep, rule, only

    def rule(self, name, text):
        pass

    def assume(self, text):
        self.rep.assume(text)

    def note(self, text):
        pass

    def ob(self, ok, rule, *rest):
        if rule in self.only:
            return self.rep.ob(ok, self.name, *rest)
        return bool(ok)
