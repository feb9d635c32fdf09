"""C26: fits minimise the squared residuals of the model they return."""
from .. import eqv, lemma, terms as T
from ..interp import Interp
from ..proof import Flow
from ..report import show
from ..values import Rec, Val
from .common import component_of, deep_same

S = T.sym
X, Y, WT = S("x"), S("y"), S("weights")
COLS = T.mk("item", T.mk("attr", X, "shape"), T.ONE)
KAPPA = S("root of the scale of the weights")


def kappa(t):
    """Power of KAPPA in a product, and the rest."""
    d = T.to_sum(t)
    if len(d) == 1:
        (m, c), = d.items()
        e = next((e for u, e in m if u is KAPPA), 0)
        if e:
            return e, T.mul(t, T.power(KAPPA, T.const(-e)))
    return 0, t


ALL = T.mk("slice", T.NONE, T.NONE, T.NONE)


def name(t):
    return str(t.args[0]).split(".")[-1] if t.op == "call" else ""


def call(n, *a):
    return T.call(n, *a)


def total(xs):
    out = T.ZERO
    for x in xs:
        out = T.add(out, x)
    return out


def times(xs):
    out = T.ONE
    for x in xs:
        out = T.mul(out, x)
    return out


def block(n, e):
    return call("block", n, e)


class Form:
    """Normal form of feature matrices, penalties and coefficients.

    blocks(block(n, e), ...): columns of a matrix (or entries of a vector) in order; n of them with content e.
    upper-pairs(x): products x_i x_j, i <= j, in the order of the rows of the upper triangle.
    col(v): a column vector; sol(A, b): least squares solution; part(c, lo, hi): columns lo to hi of the coefficients.
    sym2(s): symmetric matrices whose upper triangles hold s, with twice the values on the diagonal.
    """

    def __init__(self, ctx, it, n, second):
        self.flow = Flow(it)
        self.n, self.second = n, second
        self.memo, self.unknown, self.known = {}, [], []

    def do(self, t):
        r = self.memo.get(t)
        if r is None and t.op == "item" and t.args[0].op == "store" and t.args[0].args[1] is t.args[1]:
            r = self.memo[t] = self.do(t.args[0].args[2])
        if r is None:
            m = {c: self.do(c) for c in T.children(t)}
            t2 = T.subst(t, m) if any(k is not v for k, v in m.items()) else t
            r = self.rule(t2)
            if r is not t2 and r is not t:
                r = self.do(r) if r not in self.memo else self.memo[r]
            self.memo[t] = r
        return r

    # -------------------------------------------------------------- pieces
    def parts(self, t):
        """The array as blocks, if it is built from blocks."""
        n = name(t)
        if n == "blocks":
            return list(t.args[1])
        if t is X:
            return [block(self.n, X)]
        if n == "rows":
            return [block(t.args[1][2], t)]
        if n == "one-row":
            return [block(S("any"), t)]
        if n in ("upper-pairs", "other-pairs"):
            return [block(self.second, t)]
        if n in ("ones", "zeros", "full", "empty"):
            s = t.args[1][0]
            e = T.ONE if n == "ones" else t.args[1][1] if n == "full" else T.ZERO
            if s.op in ("tuple", "list"):
                return [block(s.args[-1], e)] if len(s.args) == 2 else [block(s.args[0], e)] if len(s.args) == 1 else None
            return [block(s, e)]
        if t.op == "list":
            return [block(T.ONE, e) for e in t.args]
        if n == "replist" and t.args[1][0].op == "list" and len(t.args[1][0].args) == 1:
            return [block(t.args[1][1], t.args[1][0].args[0])]
        if t.op == "map" and len(t.args) == 4 and t.args[3] is T.TRUE and name(t.args[0]) == "range" and len(t.args[0].args[1]) == 1 \
                and not any(u is t.args[1] for u in T.subterms(t.args[2])):
            return [block(t.args[0].args[1][0], t.args[2])]
        if n == "repeat" and len(t.args[1]) == 2:
            a, k = t.args[1]
            if a.op in ("list", "tuple") and k.op in ("list", "tuple") and len(a.args) == len(k.args):
                return [block(c, e) for e, c in zip(a.args, k.args)]
        if n == "transpose" and len(t.args[1]) == 1 and name(t.args[1][0]) == "sol":
            return [block(self.width(t.args[1][0].args[1][0]), t)]
        if t.op == "sum" or n == "sol":
            return None
        return None

    def width(self, t):
        """Number of columns of a matrix."""
        while t.op == "sum" and len(t.args) == 1 and len(t.args[0][1]) > 1:
            b = [u for u, e in t.args[0][1] if name(u) == "blocks" or self.parts(u)]
            if len(b) != 1:
                break
            t = b[0]
        p = self.parts(t)
        if p is None:
            return T.mk("item", T.mk("attr", t, "shape"), T.ONE)
        return total([b.args[1][0] for b in p])

    def join(self, ps):
        out = []
        for p in ps:
            q = self.parts(p)
            if q is None:
                return None
            out += q
        return call("blocks", *[b for b in out if b.args[1][0] is not T.ZERO])

    # --------------------------------------------------------------- rules
    def rule(self, t):
        n = name(t)
        a = list(t.args[1]) if t.op == "call" else []
        kw = dict(t.args[2]) if t.op == "call" and len(t.args) > 2 else {}
        r = self.scaled(t, n, a)
        if r is not None:
            return r
        if t is COLS or (n == "len" and a and n == "transpose"):
            return self.n
        if t.op == "phi":
            return self.pairs(t) or self.filled(t) or t
        if n in ("eye", "identity") and len(a) == 1 and t.args[0] != "eye":
            return call("eye", self.do(a[0]))
        if n in ("atleast_2d", "atleast_1d") and len(a) == 1:
            return a[0]
        if t.op == "call" and n == "floordiv" and len(a) == 2 and a[1] is T.const(2) and T.alg_equal(a[0], T.add(self.n, T.mul(self.n, self.n))):
            return self.second
        if n == "concat0" and all(self.vector(p) for p in a):
            return self.join(a) or t
        if n in ("concatenate", "append") and a and a[0].op in ("tuple", "list"):
            ax = (a[1:] + [kw.get("axis", T.ZERO)])[0]
            r = self.join(a[0].args) if ax in (T.ONE, T.const(-1)) or ax is T.ZERO and all(self.vector(p) for p in a[0].args) else None
            return r or t
        if n in ("hstack", "column_stack"):
            if a[0].op in ("tuple", "list"):
                a = list(a[0].args)
            if n == "column_stack":
                a = [call("blocks", block(T.ONE, self.parts(p)[0].args[1][1])) if self.vector(p) and p.op == "call" and name(p) in ("ones", "zeros", "full")
                     else p for p in a]
                if any(self.vector(p) for p in a):
                    return t
            return self.join(a) or t
        if n == "transpose" and len(a) == 1:
            u = a[0]
            if name(u) == "transpose" and len(u.args[1]) == 1:
                return u.args[1][0]
            if name(u) in ("concat0", "vstack"):
                us = [call("transpose", p) if name(p) != "ones" else self.flip(p) for p in u.args[1]]
                return self.join([self.do(p) for p in us]) or t
            if name(u) in ("pair-rows", "other-rows"):
                return call("upper-pairs" if name(u) == "pair-rows" else "other-pairs", *u.args[1])
            if u.op == "sum" and len(u.args) == 1:
                s = [f for f, e in u.args[0][1] if name(f) == "sol" and e == 1]
                c = [f for f, e in u.args[0][1] if name(f) == "col" and e == 1]
                if len(s) == 1 and len(s) + len(c) == len(u.args[0][1]):
                    return times([T.const(u.args[0][0]), call("transpose", s[0])] + [f.args[1][0] for f in c])
            return t
        if t.op == "concatlist":
            return self.join(t.args) or t
        if t.op == "list" and len(t.args) > 1 and not any(x.op in ("list", "tuple") for x in t.args):
            return t
        if t.op == "store":
            return self.stored(t)
        if t.op == "sum":
            return self.product(t)
        if t.op == "item":
            return self.item(t)
        if n == "reshape" and a[1].op in ("tuple", "list") and len(a[1].args) == 2 and a[1].args[1] is T.ONE:
            return call("col", a[0])
        if n == "expand_dims" and (a[1:] + [kw.get("axis")])[0] in (T.ONE, T.const(-1)):
            return call("col", a[0])
        if n == "len" and len(a) == 1:
            if name(a[0]) == "blocks" or a[0] is Y:
                return call("len", X)
            if name(a[0]) == "transpose" and name(a[0].args[1][0]) == "sol":
                return T.mk("item", T.mk("attr", Y, "shape"), T.ONE)
        if n in ("ravel", "flatten", "squeeze") and a and name(a[0]) == "part" and a[0].args[1][2] is T.add(a[0].args[1][1], T.ONE):
            return call("entry", *a[0].args[1][:2])
        if n == "dot" and len(a) == 2:
            return call("matmul", *a)
        if n == "matmul" and len(a) == 2 and name(a[0]) == "pinv":
            return call("sol", a[0].args[1][0], a[1])
        if n == "diag" and len(a) == 1:
            return call("diagonal", self.join(a) or a[0])
        if n == "diagonal":
            return t
        if n in ("swapaxes",) and len(a) == 3 and {x for x in a[1:]} <= {T.ONE, T.const(2), T.const(-1), T.const(-2)}:
            return self.lower(a[0]) or t
        if n == "transpose" and len(a) == 2 and a[1].op in ("tuple", "list") and tuple(a[1].args) == (T.ZERO, T.const(2), T.ONE):
            return self.lower(a[0]) or t
        if n in ("triu", "tril") and a and name(a[0]) in ("upper", "lower", "other", "cut", "flip"):
            k = (a[1:] + [kw.get("k", T.ZERO)])[0]
            same = name(a[0]) == ("upper" if n == "triu" else "lower")
            return a[0] if same and k is T.ZERO else call("cut", T.const(n), k, a[0])
        return t

    def scaled(self, t, n, a):
        """A common positive factor KAPPA of the roots of the weights leaves least squares as they are."""
        if n in ("max", "amax", "min", "amin", "sum", "mean", "median") and len(a) == 1 and not (len(t.args) > 2 and t.args[2]) and a[0] is WT:
            return T.power(KAPPA, T.const(2))
        if n in ("sqrt", "col") and len(a) == 1:
            e, rest = kappa(a[0])
            if e:
                return T.mul(T.call(t.args[0], rest), T.power(KAPPA, T.const(e / 2 if n == "sqrt" else e)))
        if n == "sol" and len(a) == 2:
            (e, u), (k, v) = kappa(a[0]), kappa(a[1])
            if e and e == k:
                return call("sol", u, v)
        return None

    def vector(self, t):
        return t.op in ("list", "concatlist") or name(t) in ("replist", "repeat") or \
            name(t) in ("ones", "zeros", "full") and t.args[1][0].op not in ("tuple", "list")

    def flip(self, t):
        s = t.args[1][0]
        if s.op in ("tuple", "list") and len(s.args) == 2:
            return call(t.args[0], T.mk("tuple", s.args[1], s.args[0]))
        return call("transpose", t)

    def lower(self, u):
        swap = {"upper": "lower", "lower": "upper"}
        if name(u) in swap:
            return call(swap[name(u)], *u.args[1])
        return u if name(u) in ("sym1", "sym2") else call("flip", u) if name(u) in ("cut", "other") else None

    def item(self, t):
        x, i = T.children(t)[:2]
        if x.op == "attr" and x.args[1] == "shape" and i is T.ONE:
            r = self.parts(x.args[0])
            return total([b.args[1][0] for b in r]) if r else t
        if x.op == "attr" and x.args[1] == "shape" and i is T.ZERO:
            return self.do(call("len", x.args[0])) if name(x.args[0]) in ("blocks", "transpose") else t
        if name(x) == "lstsq" and i is T.ZERO:
            kw = dict(x.args[2])
            extra = [k for k in kw if k != "rcond"]
            if not extra and len(x.args[1]) >= 2 and (list(x.args[1][2:]) + [kw.get("rcond", T.NONE)])[0] is T.NONE:
                return call("sol", *x.args[1][:2])
            return t
        r = self.null_space(x, i) or self.cut(x, i)
        if r is not None:
            return r
        if i.op == "tuple" and len(i.args) == 2 and i.args[0] is ALL:
            k = i.args[1]
            if k is T.NONE:
                return call("col", x)
            if x is S("coef"):
                if k.op == "slice" and k.args[2] is T.NONE:
                    return call("part", x, T.ZERO if k.args[0] is T.NONE else k.args[0], S("end") if k.args[1] is T.NONE else k.args[1])
                if k.op != "slice":
                    return call("entry", x, k)
            if name(x) == "part" and k is T.ZERO:
                return call("entry", *x.args[1][:2])
        if name(x) == "split" and T.is_num(i):
            a, kw = x.args[1], dict(x.args[2])
            ax = (list(a[2:]) + [kw.get("axis", T.ZERO)])[0]
            if a[1].op in ("tuple", "list") and ax in (T.ONE, T.const(-1)) and self.parts(a[0]):
                cuts = [T.ZERO] + list(a[1].args) + [T.NONE]
                k = i.args[1]
                if 0 <= k < len(cuts) - 1:
                    return self.columns_of(a[0], cuts[k], cuts[k + 1]) or t
            if a[0] is S("coef") and ax in (T.ONE, T.const(-1)) and a[1].op in ("tuple", "list"):
                cut = [T.ZERO] + list(a[1].args) + [S("end")]
                k = i.args[1]
                if 0 <= k < len(cut) - 1:
                    return call("part", a[0], cut[k], cut[k + 1])
        return t

    def columns_of(self, m, lo, hi):
        """Columns lo to hi of a matrix of blocks."""
        p, pos, out = self.parts(m), T.ZERO, []
        if p is None:
            return None
        for b in p:
            k, e = b.args[1]
            end = T.add(pos, k)
            if self.leq(lo, pos) and (hi is T.NONE or self.leq(end, hi)):
                out.append(b)
            elif not (self.leq(end, lo) or hi is not T.NONE and self.leq(hi, pos)):
                x = lo if self.leq(pos, lo) else pos if self.leq(lo, pos) else None
                y = end if hi is T.NONE or self.leq(end, hi) else hi if self.leq(hi, end) else None
                if x is None or y is None or not self.leq(x, y):
                    return None
                out.append(block(T.sub(y, x), call("cols", e, T.sub(x, pos), T.sub(y, pos))))
            pos = end
        return blocks(out)

    def cut(self, x, i):
        """First rows, columns of a matrix of blocks."""
        if i.op == "slice" and i.args[2] is T.NONE and i.args[0] in (T.NONE, T.ZERO) and i.args[1] is not T.NONE:
            if name(x) == "sol" and self.width(x.args[1][0].args[1][0] if name(x.args[1][0]) == "top" else x.args[1][0]) is i.args[1]:
                return x
            if x.op == "sum" or name(x) == "blocks":
                return call("top", x, i.args[1])
        if i.op == "tuple" and len(i.args) == 2 and all(k.op == "slice" and k.args[2] is T.NONE for k in i.args) and name(x) == "blocks":
            r, c = i.args
            m = self.columns_of(x, T.ZERO if c.args[0] is T.NONE else c.args[0], c.args[1])
            if m is not None and r is not ALL:
                return call("top", m, r.args[1]) if r.args[0] in (T.NONE, T.ZERO) else None
            return m
        return None

    def null_space(self, x, i):
        """The last columns of c Q, where Q R is the factorisation of a matrix M padded with zeros: c Z, Z the left null space of M."""
        if not (i.op == "tuple" and len(i.args) == 2 and i.args[0] is ALL and i.args[1].op == "slice" and x.op == "item" and x.args[1] is T.ZERO
                and name(x.args[0]) == "qr_multiply" and len(x.args[0].args[1]) == 2 and not x.args[0].args[2]):
            return None
        lo, hi, step = i.args[1].args
        a, c = x.args[0].args[1]
        if step is not T.NONE:
            return None
        rest = [] if hi is T.NONE or hi is call("len", X) else [hi]
        if a.op == "store" and name(a.args[0]) == "zeros" and a.args[1].op == "tuple" and len(a.args[1].args) == 2 and a.args[1].args[0] is ALL:
            k = a.args[1].args[1]
            if k.op == "slice" and k.args[0] in (T.NONE, T.ZERO) and k.args[2] is T.NONE and k.args[1] is self.width(a.args[2]):
                a = a.args[2]
        return call("null", a, c, lo, *rest)

    def filled(self, t):
        """An array filled row by row in one loop."""
        ph = self.flow.phi
        if t not in ph:
            return None
        init, back, loop = ph[t]
        if name(init) not in ("empty", "zeros") or back is None or back.op != "store" or back.args[0] is not t or any(u is t for u in T.subterms(back.args[2])):
            return None
        c = self.counter(loop)
        k = self.do(back.args[1])
        if k.op == "tuple" and len(k.args) == 2 and k.args[1] is ALL:
            k = k.args[0]
        if c is not None and T.is_num(k):
            return call("one-row", self.do(T.subst(back.args[2], {c[0]: S("row")})), k)
        if c is None or k is not c[0] or c[1][0] is not T.ZERO:
            return None
        shape = self.do(init.args[1][0])
        if shape.op not in ("tuple", "list") or len(shape.args) != 2 or self.do(c[1][1]) is not shape.args[0]:
            return None
        e = self.do(T.subst(back.args[2], {k: S("row")}))
        if name(e) == "concat0":
            ns = [self.length(p) for p in e.args[1]]
            if all(x is not None for x in ns) and total(ns) is shape.args[1]:
                return blocks([block(x, call("rows", p, shape.args[0], x)) for x, p in zip(ns, e.args[1])])
        return call("rows", e, shape.args[0], shape.args[1])

    def length(self, v):
        """Length of a vector."""
        if name(v) == "sol":
            a = v.args[1][0]
            return self.width(a.args[1][0] if name(a) == "top" else a)
        if name(v) == "matmul" and name(v.args[1][0]) == "null":
            c = v.args[1][0].args[1][1]
            return self.width(c.args[1][0]) if name(c) == "transpose" else None
        return None

    def stored(self, t):
        base, i, v = t.args
        if base.op == "ite":
            c, sides = base.args[0], []
            pair = [c.args[1:3], c.args[2:0:-1]] if c.op == "cmp" and c.args[0] == "<" else [None, None]
            for b, p in zip(base.args[1:], pair):
                self.known += [tuple(p)] if p else []
                sides.append(self.stored(T.mk("store", b, i, v)))
                del self.known[len(self.known) - (1 if p else 0):]
            return T.ite(c, *sides)
        if T.is_num(i) and not isinstance(T.cval(i), bool) and T.cval(i) >= 0:
            i = T.mk("slice", i, T.add(i, T.ONE), T.NONE)
        if i.op == "tuple" and len(i.args) == 2 and i.args[0] is ALL and i.args[1].op == "slice":
            i = i.args[1]
            if name(v) == "transpose" or name(v) == "blocks":
                q = self.parts(v)
                if q is None or len(q) != 1:
                    return t
                v = q[0].args[1][1]
        tri, kind = self.triangle(i), "upper"
        if not tri and i.op == "tuple" and len(i.args) == 3:
            tri, kind = self.triangle(T.mk("tuple", i.args[0], i.args[2], i.args[1])), "lower"
        if not tri:
            tri, kind = self.triangle(i, "tril_indices"), "other"
        if tri:
            z = base
            if name(z) in ("zeros", "empty", "full") and (name(z) == "zeros" or z.args[1][1:2] == (T.ZERO,)):
                s = z.args[1][0]
                if s.op in ("tuple", "list") and len(s.args) == 3 and s.args[1] is s.args[2] and s.args[1] is tri:
                    return call(kind, T.subst(v, {T.mk("item", base, i): T.ZERO}), s.args[0], tri)
            old = T.mk("item", base, i)
            if kind != "other" and name(base) in ("upper", "lower") and base.args[1][2] is tri:
                if any(u is old for u in T.subterms(v)):
                    return T.add(base, call(kind, T.sub(v, old), base.args[1][1], tri))
                if v is base.args[1][0] and name(base) != kind:
                    return call("sym1", *base.args[1])
            return t
        if i.op == "slice" and i.args[2] is T.NONE:
            p = self.parts(base)
            if p is None:
                return t
            length = total([b.args[1][0] for b in p])
            lo = T.ZERO if i.args[0] is T.NONE else i.args[0]
            hi = length if i.args[1] is T.NONE else i.args[1]
            for bound, other in ((lo, 1), (hi, 0)):
                if bound.op in ("min", "max") and len(bound.args) == 2:
                    u, v2 = bound.args
                    if self.leq(u, v2) or self.leq(v2, u):
                        u, v2 = (u, v2) if self.leq(u, v2) else (v2, u)
                        b = u if bound.op == "min" else v2
                        return self.stored(T.mk("store", base, T.mk("slice", *((lo, b) if other == 0 else (b, hi)), T.NONE), v))
                    sides = []
                    for small, large in ((u, v2), (v2, u)):
                        b = small if bound.op == "min" else large
                        self.known.append((small, large))
                        s = T.mk("store", base, T.mk("slice", *((lo, b) if other == 0 else (b, hi)), T.NONE), v)
                        sides.append(self.stored(s))
                        self.known.pop()
                    return T.ite(T.cmp("<", u, v2), *sides)
            out, pos = [], T.ZERO
            for b in p:
                k, e = b.args[1]
                end = T.add(pos, k)
                if self.leq(end, lo) or self.leq(hi, pos):
                    out.append(b)
                else:
                    if self.leq(pos, lo) and self.leq(lo, end):
                        start = lo
                        out.append(block(T.sub(lo, pos), e))
                    elif self.leq(lo, pos):
                        start = pos
                    else:
                        return t
                    if self.leq(hi, end) and self.leq(start, hi):
                        out += [block(T.sub(hi, start), v), block(T.sub(end, hi), e)]
                    elif self.leq(end, hi):
                        out.append(block(T.sub(end, start), v))
                    else:
                        return t
                pos = end
            return call("blocks", *[b for b in out if b.args[1][0] is not T.ZERO])
        return t

    def leq(self, a, b):
        """a <= b, with at least one parameter, second order term and point."""
        if (a, b) in self.known or a is b:
            return True
        d = T.sub(b, a)
        low = 0
        for m, c in T.to_sum(d).items():
            if m == ():
                low += c
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in (self.n, self.second, call("len", X)) and c > 0:
                low += c
            else:
                return False
        return low >= 0

    def before(self, a, b):
        """a < b, for sums of 1, the number of parameters (at least one) and of second order terms; None if not known."""
        d = T.sub(b, a)
        if d is T.ZERO:
            return False
        pos = neg = False
        for c, m in (d.args if d.op == "sum" else [(1, ((d, 1),))] if not T.is_num(d) else [(d.args[1], ())]):
            if any(u not in (self.n, self.second) for u, e in m):
                return None
            pos, neg = pos or c > 0, neg or c < 0
        return None if pos and neg else pos

    def triangle(self, i, of="triu_indices"):
        """Index of the upper triangles of a stack of matrices: their size."""
        if i.op == "tuple" and len(i.args) == 3 and i.args[0] is ALL and all(k.op == "item" and name(k.args[0]) == of for k in i.args[1:]):
            a, b = i.args[1:]
            if a.args[0] is b.args[0] and a.args[1] is T.ZERO and b.args[1] is T.ONE and len(a.args[0].args[1]) == 1:
                return a.args[0].args[1][0]
        return None

    def product(self, t):
        """Products of blocks with equal cuts; upper plus lower triangle."""
        ms = []
        for c, m in t.args:
            m0 = m
            m = self.selected(m)
            if m is not m0:
                ms.append(times([T.const(c)] + [T.power(u, T.const(e)) for u, e in m]))
                continue
            inv = [u for u, e in m if e == -1 and self.parts(u) is not None and u.op != "sym"]
            if inv:
                ms.append(times([T.const(c)] + [T.power(u, T.const(e)) if u not in inv else blocks(
                    [block(b.args[1][0], T.power(b.args[1][1], T.const(-1))) for b in self.parts(u)]) for u, e in m]))
                continue
            bl = [(u, e) for u, e in m if e == 1 and (name(u) == "blocks" or self.parts(u) is not None and u.op != "sym")]
            if len(bl) > 1:
                merged = self.merge([self.parts(u) for u, e in bl])
                if merged is not None:
                    m2 = times([T.const(c), merged] + [T.power(u, T.const(e)) for u, e in m if (u, e) not in bl])
                    ms.append(m2)
                    continue
            ms.append(None)
        if any(x is not None for x in ms):
            return total([x if x is not None else T.from_sum({m: c}) for x, (c, m) in zip(ms, t.args)])
        us = [(c, m[0][0]) for c, m in t.args if len(m) == 1 and m[0][1] == 1 and name(m[0][0]) in ("upper", "lower")]
        for c, u in us:
            for k, v in us:
                if c == k and name(u) == "upper" and name(v) == "lower" and u.args[1] == v.args[1]:
                    rest = T.sub(T.sub(t, T.mul(T.const(c), u)), T.mul(T.const(c), v))
                    return T.add(rest, T.mul(T.const(c), call("sym2", *u.args[1])))
        return t

    def selected(self, m):
        """x[:, i] * x[:, j] for the indices i, j of the upper triangle."""
        ix = {}
        for u, e in m:
            if u.op == "item" and T.children(u)[0] is X:
                i = T.children(u)[1]
                k = i.args[1] if i.op == "tuple" and len(i.args) == 2 and i.args[0] is ALL else None
                if k is not None and k.op == "item" and name(k.args[0]) == "triu_indices" and len(k.args[0].args[1]) == 1 and \
                        k.args[0].args[1][0] is self.n:
                    ix[k.args[1]] = (u, e)
        if set(ix) == {T.ZERO, T.ONE} and all(e == 1 for u, e in ix.values()):
            return [f for f in m if f not in ix.values()] + [(call("upper-pairs", X), 1)]
        return m

    def merge(self, ps):
        out = []
        ps = [[b for b in p if b.args[1][0] is not T.ZERO] for p in ps]
        while all(ps):
            heads = [p[0] for p in ps]
            k = heads[0].args[1][0]
            for h in heads[1:]:
                o = h.args[1][0]
                if o is not k:
                    b = self.before(o, k)
                    if b is None:
                        return None
                    if b:
                        k = o
            e = T.ONE
            for p in ps:
                h = p.pop(0)
                v = h.args[1][1]
                rest = T.sub(h.args[1][0], k)
                if rest is not T.ZERO:
                    if name(v) in ("upper-pairs",) or v is X:
                        return None
                    p.insert(0, block(rest, v))
                    if name(v) == "transpose":
                        v = v
                e = T.mul(e, v)
            out.append(block(k, e))
        return call("blocks", *out) if not any(ps) else None

    def pairs(self, t):
        """An array filled row by row with the products of two columns in two nested loops."""
        ph = self.flow.phi
        if t not in ph:
            return None
        init, back, outer = ph[t]
        if name(init) != "empty" and name(init) != "zeros":
            return None
        if back not in ph:
            return None
        i0, b0, inner = ph[back]
        if i0 is not t or b0 is None or b0.op != "store" or b0.args[0] is not back:
            return None
        k, v = b0.args[1], b0.args[2]
        rows = True
        if k.op == "tuple" and len(k.args) == 2 and k.args[0] is ALL:
            k, rows = k.args[1], False
        if k not in ph or ph[k][2] is not inner:
            return None
        ki, kb, _ = ph[k]
        if ki not in ph or ph[ki][2] is not outer:
            return None
        k0, k1, _ = ph[ki]
        i, j = self.counter(outer), self.counter(inner)
        if i is None or j is None:
            return None
        good = T.add(k, T.ONE) is kb and k1 is k and k0 is T.ZERO
        lo, hi = i[1]
        good = good and lo is T.ZERO and self.do(hi) is self.n
        lo, hi = j[1]
        good = good and lo is i[0] and self.do(hi) is self.n
        good = good and T.mul(self.column(i[0]), self.column(j[0])) is self.columns(v)
        what = ("pair" if rows else "upper-pairs") if good else "other" if rows else "other-pairs"
        return call(what + "-rows" if rows else what, X)

    def counter(self, loop):
        it = loop.iter
        if name(it) != "range":
            return None
        from ..interp import elem
        a = it.args[1]
        return elem(it), (T.ZERO, a[0]) if len(a) == 1 else tuple(a[:2])

    def column(self, i):
        return call("column", X, i)

    def columns(self, v):
        m = {}
        for u in T.subterms(v):
            if u.op == "item":
                x, i = T.children(u)[:2]
                if name(x) == "transpose" and x.args[1][0] is X:
                    m[u] = self.column(i)
                elif x is X and i.op == "tuple" and len(i.args) == 2 and i.args[0] is ALL:
                    m[u] = self.column(i.args[1])
        return T.subst(v, m)


N, P = S("number of parameters"), S("number of second order terms")

KNOWN = {"blocks", "block", "upper-pairs", "other-pairs", "col", "sol", "part", "entry", "sym2", "upper", "lower", "diagonal", "transpose",
         "matmul", "sqrt", "len", "cut", "other", "sym1", "flip", "rows", "null", "top", "eye", "one-row", "cols", "clip", "moved", "added", "unit", "predict"}


class Undecided(Exception):
    pass


def unfamiliar(t, seen=None):
    """A part of the value whose meaning the rule does not know, or None."""
    seen = seen if seen is not None else set()
    if t in seen:
        return None
    seen.add(t)
    if t is ALL:
        return None
    if t.op == "call":
        if name(t) not in KNOWN:
            return t
        if name(t) == "transpose" and len(t.args[1]) != 1:
            return t
    elif t.op in ("phi", "store", "map", "lambda", "opaque", "fold", "slice"):
        return t
    elif t.op == "attr" and t.args[0].op != "sym":
        return t
    elif t.op == "item" and T.children(t)[0].op == "call":
        return t
    for c in T.children(t):
        r = unfamiliar(c, seen)
        if r is not None:
            return r
    return None


def normal_equations(t):
    """sol(A'A, A'b) is sol(A, b)."""
    m = {}
    for u in T.subterms(t):
        if name(u) == "sol":
            a, b = u.args[1]
            if name(a) == "matmul" and name(b) == "matmul" and a.args[1][0] is b.args[1][0] and \
                    name(a.args[1][0]) == "transpose" and a.args[1][0].args[1][0] is a.args[1][1]:
                m[u] = call("sol", a.args[1][1], b.args[1][1])
    return T.subst(t, m) if m else t


class Fits:
    def __init__(self, ctx, rep):
        self.ctx, self.rep = ctx, rep
        self.open = []

    def agree(self, rule, where, text, got, want, impossible=None):
        """Rows of the decision table that are decided have to agree."""
        skipped = []

        def same(u, v):
            if u is v:
                return True
            if v is ANY:
                if unfamiliar(u) is None:
                    return False
                return True
            if deep_same(u, v):
                return True
            w = unfamiliar(u)
            if w is not None:
                skipped.append(show(w)[:80])
                return True
            return False

        try:
            ok, why = eqv.equal(got, want, impossible=impossible, same=same)
        except eqv.TooBig:
            self.rep.note(f"{where}: not decided, too many cases")
            return
        if skipped and ok:
            self.open.append(f"{where}: {text}: {skipped[0]}")
            return
        self.rep.ob(ok, rule, where, text, why or "")


ANY = S("any fit")
RAW = {"linear": [block(T.ONE, T.ONE), block(N, X)],
       "quadratic": [block(T.ONE, T.ONE), block(N, X), block(P, call("upper-pairs", X))]}


def weigh(v, weights):
    return T.mul(v, call("col", T.call("numpy.sqrt", WT))) if weights else v


def sol(a, b):
    return call("transpose", call("sol", a, b))


def blocks(bs):
    return call("blocks", *bs)


def want_ols(mt, w):
    return sol(weigh(blocks(RAW[mt]), w), weigh(Y, w))


def want_tranquilo(mt, w):
    ps = [T.power(S(p), T.const(-1)) for p in ("p_intercept", "p_linear", "p_square")]
    bs = [block(b.args[1][0], T.mul(b.args[1][1], p)) for b, p in zip(RAW[mt], ps)]
    c = sol(weigh(blocks(bs), w), weigh(Y, w))
    return blocks([block(b.args[1][0], T.mul(c, p)) for b, p in zip(bs, ps)])


def want_ridge(mt, w):
    f = weigh(blocks(RAW[mt]), w)
    pen = [T.ZERO, S("l2_penalty_linear"), S("l2_penalty_square")]
    d = call("diagonal", blocks([block(b.args[1][0], p) for b, p in zip(RAW[mt], pen)]))
    ft = call("transpose", f)
    return sol(T.add(call("matmul", ft, f), d), call("matmul", ft, weigh(Y, w)))


def minimum_norm():
    """M a + K b = y with the smallest b."""
    m, k, z = blocks(RAW["linear"]), blocks(RAW["quadratic"][2:]), T.add(T.ONE, N)
    y = T.mk("item", Y, T.mk("tuple", ALL, S("row")))
    nz = call("null", m, call("transpose", k), z)
    zz = call("null", m, call("eye", call("len", X)), z)
    b = call("matmul", nz, call("sol", call("matmul", call("transpose", nz), nz), call("matmul", call("transpose", zz), y)))
    a = call("sol", call("top", m, z), call("top", T.sub(y, call("matmul", k, b)), z))
    r = T.mk("item", T.mk("attr", Y, "shape"), T.ONE)
    return blocks([block(z, call("rows", a, r, z)), block(P, call("rows", b, r, P))])


def want_powell(mt, w):
    lin = want_ols("linear", False)
    n = call("len", X)
    pad = [block(P, T.ZERO)] if mt == "quadratic" else []
    few = blocks([block(T.add(T.ONE, N), lin)] + pad)
    full = total([b.args[1][0] for b in RAW[mt]])
    return T.ite(T.cmp("<=", n, T.add(T.ONE, N)), few, T.ite(T.cmp("<=", full, n), want_ols(mt, False), minimum_norm() if mt == "quadratic" else ANY))


WANT = {
    "ols": (want_ols, "least squares solution of all features on the values"),
    "ridge": (want_ridge, "least squares with the penalties of linear and square terms, none on the intercept"),
    "tranquilo": (want_tranquilo, "least squares with features and coefficients divided by the penalties"),
    "powell": (want_powell, "linear fit of few points, full least squares of enough points, minimum norm Hessian in between"),
}


# ------------------------------------------------------------------ fitters
def run_fitter(fx, label, f, mt, weighted):
    ctx, rep = fx.ctx, fx.rep
    it = Interp(ctx.project, {})
    st = lemma.start(it, f.module)
    ps = lemma.params(f)
    roles = {"x": X, "y": Y, "model_type": T.const(mt), "weights": WT if weighted else T.NONE}
    missing = [p for p in ("x", "y", "model_type") if p not in ps]
    if missing:
        fx.open.append(f"{label}: no parameter {missing[0]}")
        return
    got = it.tm(it.call(f, [], {p: Val(roles.get(p, S(p))) for p in ps}, st, f.node), st)
    ctx.count(it)
    if weighted:
        got = T.subst(got, {T.cmp("==", T.NONE, WT): T.FALSE, T.cmp("==", WT, T.NONE): T.FALSE})
    form = Form(ctx, it, N, P)
    want, text = WANT[label]
    got = normal_equations(form.do(got))
    w = f"{ctx.project.rel(f.module)}:{f.node.name}"
    fx.agree("coefficients", w, f"{label}: {text} ({mt}{', weighted' if weighted else ''})", got, want(mt, weighted))


def fitters(fx):
    reg = component_of(fx.ctx, "get_fitter").registry
    n = 0
    for label, f in reg.items():
        if label not in WANT:
            fx.open.append(f"{label}: not specified")
            continue
        f = getattr(f, "func", f)
        for mt in ("linear", "quadratic"):
            for weighted in (False, True):
                if weighted and "weights" not in lemma.params(f):
                    continue
                run_fitter(fx, label, f, mt, weighted)
                n += 1
    return n


# ----------------------------------------------------------------- template
def check_template(fx):
    from .algebra import fit_flow
    ctx, rep = fx.ctx, fx.rep
    for mt in ("linear", "quadratic"):
        for residualize in (False, True):
            it, st, f, r, moves, calls, unit, frame, region, old = fit_flow(ctx, mt, residualize)
            w = f"{ctx.project.rel(f.module)}:{f.name}"
            mode = f"{mt}, {'of residuals' if residualize else 'of values'}"
            rep.ob(bool(calls), "template", w, f"the fit method is called ({mode})", "never called" if not calls else "")
            for pos, kw in calls:
                d = {**dict(zip(("x", "y", "weights", "model_type"), pos)), **kw}
                fx.agree("template", w, f"weights are passed on ({mode})", d.get("weights", T.NONE), WT)
            if mt == "linear":
                continue
            if not isinstance(r, Rec) or "square_terms" not in r.fields:
                fx.open.append(f"{w}: the result is no record with square terms")
                continue
            got = it.tm(r.fields["square_terms"], st)
            if residualize:
                m = S("moved.square_terms")
                got = T.sub(T.subst(got, {T.cmp("==", T.NONE, m): T.FALSE, T.cmp("==", m, T.NONE): T.FALSE}), m)
            form = Form(ctx, it, N, P)
            want = call("sym2", call("part", S("coef"), T.add(T.ONE, N), S("end")), T.mk("item", T.mk("attr", Y, "shape"), T.ONE), N)
            fx.agree("template", w, f"Hessians are symmetric, with twice the coefficients of squares on the diagonal ({mode})", form.do(got), want)


def check_C26(ctx, rep):
    rep.rule("coefficients", "normal form of the coefficients that every built-in fit method returns = their definition: least squares on 1, x and the "
             "products x_i x_j (i <= j), weighted rows, penalties per block")
    rep.rule("template", "value flow from the weights into the fit method and from its coefficients into the Hessians of the model")
    fx = Fits(ctx, rep)
    n = fitters(fx)
    check_template(fx)
    rep.note(f"{n} runs of built-in fit methods (model type, weights), 4 of the template")
    for o in fx.open:
        rep.note("not decided: " + o)
    rep.assume("at least one parameter; least squares means numpy.linalg.lstsq with its default cutoff; scipy.linalg.qr_multiply returns c Q; the points of a minimum norm fit identify its linear terms")
