"""Normal form of sums, extrema and weighted means over the elements of a sequence.

A list that was built element by element from another one is (base, value,
condition): the value for an element of the base, kept if the condition holds.
Loops that accumulate, comprehensions that are summed and array reductions of
aligned sequences all become  sum-over(base, value, condition).
"""
from . import terms as T
from .interp import elem


def short(t):
    return str(t.args[0]).split(".")[-1] if t.op == "call" else ""


def kws(t):
    return dict(t.args[2]) if t.op == "call" and len(t.args) > 2 else {}


WRAP = {"array", "asarray", "list", "tuple", "iter", "fromiter"}
ZEROS = {"zeros", "zeros_like"}


def free(var, t):
    """Does t depend on the element, outside of sums over all of them?"""
    if t is var:
        return True
    if t.op == "call" and str(t.args[0]).endswith("-over") and elem(t.args[1][0]) is var:
        return False
    return any(free(var, c) for c in T.children(t))


class Seqs:
    def __init__(self, flow, bases=()):
        self.phi = flow.phi
        self.bases = set(bases)
        self.memo = {}

    # -- sequences
    def seq(self, t):
        """(base, value, condition) or None."""
        if t.op == "map":
            src, var, val, cond = t.args
            s = self.seq(src)
            if s is None:
                return src, self.norm(val), self.norm(cond)
            b, v, c = s
            m = {var: v} if var is not v else {}
            return b, self.norm(T.subst(val, m)), T.tand(c, self.norm(T.subst(cond, m)))
        n = short(t)
        if n in self.bases:
            return t, elem(t), T.TRUE  # distinct elements
        if n in WRAP and t.args[1]:
            return self.seq(t.args[1][0])
        if n in ("keys", "values") and len(t.args[1]) == 1:
            return self.seq(t.args[1][0]) if t.args[1][0].op == "map" else None
        if t.op == "zip" or n == "zip":
            ss = [self.seq(a) for a in (t.args if t.op == "zip" else t.args[1])]
            if any(s is None for s in ss) or not self.aligned(ss):
                return None
            return ss[0][0], T.mk("tuple", *[s[1] for s in ss]), ss[0][2]
        if n == "range" and len(t.args[1]) == 1:
            s = self.sized(t.args[1][0])
            return None if s is None else (s[0], elem(t), s[2])
        if t.op == "sum":
            parts = {}
            for c, m in t.args:
                for a, e in m:
                    s = self.seq(a)
                    if s is not None:
                        parts[a] = s
            if parts and self.aligned(list(parts.values())):
                b, _, c = next(iter(parts.values()))
                v = T.ZERO
                for k, m in t.args:
                    x = T.num_const(k)
                    for a, e in m:
                        x = T.mul(x, T.power(parts[a][1] if a in parts else self.norm(a), T.const(e)))
                    v = T.add(v, x)
                return b, self.norm(v), c
        return None

    def sized(self, n):
        """The sequence whose length the term is."""
        if short(n) == "len":
            return self.seq(n.args[1][0])
        if n.op == "attr" and n.args[1] == "size":
            return self.seq(n.args[0])
        if n.op == "item" and n.args[1] is T.ZERO and n.args[0].op == "attr" and n.args[0].args[1] == "shape":
            return self.seq(n.args[0].args[0])
        return None

    def aligned(self, ss):
        return all(s[0] is ss[0][0] and s[2] is ss[0][2] for s in ss)

    # -- reductions
    def total(self, s):
        b, v, c = s
        var = elem(b)
        if v.op == "ite":
            return T.ite(v.args[0], self.total((b, v.args[1], c)), self.total((b, v.args[2], c))) if not free(var, v.args[0]) else T.call("sum-over", b, v, c)
        out = T.ZERO
        for m, k in T.to_sum(v).items():
            x, y = T.num_const(k), T.ONE
            for a, e in m:
                if free(var, a):
                    y = T.mul(y, T.power(a, T.const(e)))
                else:
                    x = T.mul(x, T.power(a, T.const(e)))
            out = T.add(out, T.mul(x, T.call("sum-over", b, y, c)))
        return out

    def norm(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = t
        r = self.step(t)
        self.memo[t] = r
        return r

    def step(self, t):
        if t in self.phi:
            init, back, lp = self.phi[t]
            if lp.kind == "for" and lp.iter is not None and not lp.breaks and init is not None and back is not None:
                s = self.seq(lp.iter)
                d = T.sub(back, t)
                if s is not None and t not in set(T.subterms(d)):
                    el = elem(lp.iter)
                    v = T.subst(d, {el: s[1]})
                    v = T.subst(v, {u: u.args[0].args[T.cval(u.args[1])] for u in T.subterms(v)
                                    if u.op == "item" and u.args[0].op == "tuple" and T.is_const(u.args[1]) and isinstance(T.cval(u.args[1]), int)})
                    init = T.ZERO if short(init) in ZEROS else self.norm(init)
                    return T.add(init, self.total((s[0], self.norm(v), s[2])))
            return t
        if t.op == "item":
            a, i = t.args
            if i.op == "elem" and short(i.args[0]) == "range":
                s, v = self.seq(i.args[0]), self.seq(a)
                if s is not None and v is not None and self.aligned([s, v]):
                    return v[1]
        n = short(t)
        if n in ("sum", "max", "min", "amax", "amin", "mean", "average", "dot") and t.args[1]:
            s = self.seq(t.args[1][0])
            k = kws(t)
            if s is not None:
                if n == "sum" and len(t.args[1]) == 1:
                    return self.total(s)
                if n in ("max", "amax", "min", "amin") and len(t.args[1]) == 1 and not k:
                    return T.call(n[-3:] + "-over", s[0], s[1], s[2])
                one = self.total((s[0], T.ONE, s[2]))
                if n in ("mean", "average") and not k.get("weights") and set(k) <= {"axis"} and k.get("axis", T.ZERO) is T.ZERO:
                    return T.div(self.total(s), one)
                if n in ("mean", "average") and "weights" in k:
                    w = self.seq(k["weights"])
                    if w is not None and self.aligned([s, w]):
                        return T.div(self.total((s[0], T.mul(s[1], w[1]), s[2])), self.total(w))
                if n == "dot" and len(t.args[1]) == 2:
                    w = self.seq(t.args[1][1])
                    if w is not None and self.aligned([s, w]):
                        return self.total((s[0], T.mul(s[1], w[1]), s[2]))
        if n == "matmul" and len(t.args[1]) == 2:
            a, b = self.seq(t.args[1][0]), self.seq(t.args[1][1])
            if a is not None and b is not None and self.aligned([a, b]):
                return self.total((a[0], T.mul(a[1], b[1]), a[2]))
        if t.op == "cmp" and t.args[0] == "in":
            s = self.seq(t.args[2])
            if s is not None and t.args[1] is elem(s[0]) and s[1] is t.args[1]:
                return s[2]
        if n == "cov":
            k = kws(t)
            if k.get("ddof") is T.ONE:
                t = T.call(t.args[0], *t.args[1], **{a: b for a, b in k.items() if a != "ddof"})
        return self.inside(t)

    def inside(self, t):
        ch = {c: self.norm(c) for c in T.children(t) if isinstance(c, T.Term)}
        ch = {c: r for c, r in ch.items() if r is not c}
        return T.subst(t, ch) if ch else t
