"""Array expressions in index notation.

A value is a tensor with named axes: a sum of products of leaf tensors with
free and bound indices.  Two expressions are equal when their normal forms are:
`np.sum((x @ H) * x, axis=1)`, `np.einsum("si,ij,sj->s", x, H, x)` and
`((x @ H) * x).sum(-1)` all become  sum_ij x[s,i] H[i,j] x[s,j].
"""
import itertools
from fractions import Fraction

from . import terms as T


class Unknown(Exception):
    """The expression is outside of the fragment."""


class Undecided(Unknown):
    def __init__(self, cond):
        super().__init__(f"undecided condition {T.show(cond)[:80]}")
        self.cond = cond


class Case:
    """Conditions assumed while terms are read; equalities among them replace leaves."""

    def __init__(self, conds=()):
        self.conds = dict(conds)

    def equal_pairs(self):
        for c, v in self.conds.items():
            while c.op == "truth" or c.op == "call" and c.args[0] in ("bool", "numpy.all", "all") and len(c.args[1]) == 1:
                c = c.args[0] if c.op == "truth" else c.args[1][0]
            if v and c.op == "cmp" and c.args[0] == "==":
                yield c.args[1:]
            elif v and c.op == "call" and str(c.args[0]).split(".")[-1] in ("allclose", "array_equal", "isclose"):
                yield c.args[1][:2]


CASE = Case()


def by_cases(f, limit=5):
    """[(conditions, f())] for all outcomes of conditions that f cannot decide."""
    global CASE
    out = []

    def go(conds):
        global CASE
        old, CASE = CASE, Case(conds)
        try:
            r = f()
        except Undecided as e:
            if len(conds) >= limit or e.cond in dict(conds):
                raise
            CASE = old
            go(conds + [(e.cond, True)])
            go(conds + [(e.cond, False)])
            return
        finally:
            CASE = old
        out.append((conds, r))
    go([])
    return out


class Tn:
    """dims: one entry per axis, a name or 1.  poly: monomial -> coefficient.

    A monomial is a sorted tuple of ((leaf, indices), exponent); free indices
    are the axis numbers, bound ones are strings 'b0', 'b1', ...
    """

    def __init__(self, dims, poly):
        self.dims = tuple(dims)
        self.poly = {m: c for m, c in poly.items() if c}

    def __eq__(self, o):
        return isinstance(o, Tn) and self.dims == o.dims and self.poly == o.poly

    def __hash__(self):
        return hash((self.dims, tuple(sorted(map(str, self.poly)))))

    def show(self):
        out = []
        for m, c in sorted(self.poly.items(), key=str):
            fs = "".join(f" {n}[{','.join(map(str, i))}]" + (f"^{e}" if e != 1 else "") for (n, i), e in m)
            out.append(f"{c if c != 1 or not fs else ''}{fs}".strip())
        return f"{self.dims}: " + (" + ".join(out) or "0")


SYMMETRIC = {}  # leaf -> axes that may be exchanged


def leaf(name, dims):
    return Tn(dims, {(((name, tuple(i if d != 1 else "-" for i, d in enumerate(dims))), 1),): Fraction(1)})


def const(v):
    return Tn((), {(): Fraction(v)})


def _sym(f):
    name, idx = f
    ax = SYMMETRIC.get(name)
    if not ax:
        return f
    vals = sorted((idx[a] for a in ax), key=str)
    idx = list(idx)
    for a, v in zip(ax, vals):
        idx[a] = v
    return (name, tuple(idx))


def canon(m):
    """Canonical name of bound indices of a monomial (list of (factor, exp))."""
    bound = sorted({i for (n, idx), e in m for i in idx if isinstance(i, str) and i != "-"})
    if len(bound) > 6:
        raise Unknown("too many sums")
    best = None
    for perm in itertools.permutations(range(len(bound))):
        ren = {b: f"b{p}" for b, p in zip(bound, perm)}
        d = {}
        for (n, idx), e in m:
            f = _sym((n, tuple(ren.get(i, i) if isinstance(i, str) else i for i in idx)))
            d[f] = d.get(f, 0) + e
        t = tuple(sorted(((f, e) for f, e in d.items() if e), key=str))
        if best is None or str(t) < str(best):
            best = t
    return best


def norm(dims, poly):
    out = {}
    for m, c in poly.items():
        k = canon(m)
        out[k] = out.get(k, 0) + c
    return Tn(dims, out)


_fresh = itertools.count()


def rebind(m):
    """Fresh names for the bound indices."""
    k = next(_fresh)
    return [((n, tuple(f"f{k}{i}" if isinstance(i, str) and i != "-" else i for i in idx)), e) for (n, idx), e in m]


def reindex(m, mp):
    return [((n, tuple(mp.get(i, i) if not isinstance(i, str) else i for i in idx)), e) for (n, idx), e in m]


def _bdims(*ts):
    """Broadcast dimensions."""
    r = max((len(t.dims) for t in ts), default=0)
    out = [1] * r
    for t in ts:
        off = r - len(t.dims)
        for i, d in enumerate(t.dims):
            if d == 1:
                continue
            if out[off + i] == 1:
                out[off + i] = d
            elif out[off + i] != d:
                raise Unknown(f"axes {out[off + i]} and {d} do not match")
    return tuple(out)


def _shifted(t, r):
    off = r - len(t.dims)
    return {tuple(reindex(m, {i: i + off for i in range(len(t.dims))})): c for m, c in t.poly.items()}


def add(a, b):
    dims = _bdims(a, b)
    p = {}
    for t in (a, b):
        for m, c in _shifted(t, len(dims)).items():
            k = canon(m)
            p[k] = p.get(k, 0) + c
    return Tn(dims, p)


def scale(a, c):
    return Tn(a.dims, {m: v * c for m, v in a.poly.items()})


def mul(a, b):
    dims = _bdims(a, b)
    p = {}
    for m1, c1 in _shifted(a, len(dims)).items():
        for m2, c2 in _shifted(b, len(dims)).items():
            k = canon(rebind(m1) + rebind(m2))
            p[k] = p.get(k, 0) + c1 * c2
    return Tn(dims, p)


def inverse(a):
    if len(a.poly) == 1:
        (m, c), = a.poly.items()
        if not any(isinstance(i, str) and i != "-" for (n, idx), e in m for i in idx):
            return Tn(a.dims, {tuple((f, -e) for f, e in m): 1 / c})
    return opaque("inv", [a])


def opaque(name, ts, dims=None):
    """Elementwise function of normal forms."""
    dims = _bdims(*ts) if dims is None else dims
    key = f"{name}({'; '.join(t.show() for t in ts)})"
    return leaf(key, dims)


def power(a, e):
    out = const(1)
    for _ in range(abs(e)):
        out = mul(out, a)
    return out if e >= 0 else inverse(out)


def transpose(a, axes=None):
    n = len(a.dims)
    axes = list(reversed(range(n))) if axes is None else [x % n for x in axes]
    mp = {old: new for new, old in enumerate(axes)}
    return norm([a.dims[x] for x in axes], {tuple(reindex(m, mp)): c for m, c in a.poly.items()})


def contract(a, axis):
    """Sum over an axis."""
    n = len(a.dims)
    axis %= n
    d = a.dims[axis]
    dims = a.dims[:axis] + a.dims[axis + 1:]
    out = {}
    for m, c in a.poly.items():
        m = rebind(m)
        uses = any(axis in idx for (nm, idx), e in m)
        b = f"s{next(_fresh)}"
        m = [((nm, tuple(b if i == axis else i - 1 if not isinstance(i, str) and i > axis else i for i in idx)), e)
             for (nm, idx), e in m]
        if not uses and d != 1:
            m = m + [((f"dim {d}", ()), 1)]
        k = canon(m)
        out[k] = out.get(k, 0) + c
    return Tn(dims, out)


def total(a):
    while a.dims:
        a = contract(a, 0)
    return a


def expand(a, axis):
    """Insert an axis of length one."""
    n = len(a.dims)
    axis = axis % (n + 1)
    dims = a.dims[:axis] + (1,) + a.dims[axis:]
    mp = {i: i + 1 for i in range(axis, n)}
    return norm(dims, {tuple(reindex(m, mp)): c for m, c in a.poly.items()})


def drop_axis(a, axis):
    n = len(a.dims)
    axis %= n
    if a.dims[axis] != 1:
        raise Unknown("an axis longer than one is dropped")
    dims = a.dims[:axis] + a.dims[axis + 1:]
    mp = {i: i - 1 for i in range(axis + 1, n)}
    return norm(dims, {tuple(reindex(m, mp)): c for m, c in a.poly.items()})


def squeeze(a):
    for i in reversed(range(len(a.dims))):
        if a.dims[i] == 1:
            a = drop_axis(a, i)
    return a


def diagonal(a, i, j):
    """Identify two axes; the common axis stays at position i."""
    if a.dims[i] != a.dims[j]:
        raise Unknown("different axes are identified")
    i, j = min(i, j), max(i, j)
    dims = a.dims[:j] + a.dims[j + 1:]
    mp = {j: i, **{k: k - 1 for k in range(j + 1, len(a.dims))}}
    return norm(dims, {tuple(reindex(m, mp)): c for m, c in a.poly.items()})


def matmul(a, b):
    ra, rb = len(a.dims), len(b.dims)
    if ra == 0 or rb == 0:
        raise Unknown("matmul of a scalar")
    va, vb = ra == 1, rb == 1
    if va:
        a = expand(a, 0)
    if vb:
        b = expand(b, 1)
    # a: (..., i, k, 1)   b: (..., 1, k, j)
    a2 = expand(a, len(a.dims))
    b2 = expand(b, len(b.dims) - 2)
    if a.dims[-1] != b.dims[-2]:
        raise Unknown(f"matmul of axes {a.dims[-1]} and {b.dims[-2]}")
    p = mul(a2, b2)
    p = contract(p, len(p.dims) - 2)
    if vb:
        p = drop_axis(p, len(p.dims) - 1)
    if va:
        p = drop_axis(p, len(p.dims) - (1 if vb else 2))
    return p


def einsum(spec, ops):
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        out = "".join(sorted(c for c in set(ins.replace(",", "")) if ins.count(c) == 1))
    if "." in spec:
        raise Unknown("einsum with ellipsis")
    ins = ins.split(",")
    letters = sorted(set("".join(ins)))
    pos = {c: k for k, c in enumerate(list(out) + [c for c in letters if c not in out])}
    acc = None
    for s, t in zip(ins, ops):
        if len(s) != len(t.dims):
            raise Unknown("einsum with wrong rank")
        s = list(s)
        for c in set(s):
            while s.count(c) > 1:
                i = s.index(c)
                j = s.index(c, i + 1)
                t = diagonal(t, i, j)
                s.pop(j)
        dims = [1] * len(pos)
        for c, d in zip(s, t.dims):
            dims[pos[c]] = d
        mp = {k: pos[c] for k, c in enumerate(s)}
        t = norm(dims, {tuple(reindex(m, mp)): c for m, c in t.poly.items()})
        acc = t if acc is None else mul(acc, t)
    while len(acc.dims) > len(out):
        acc = contract(acc, len(acc.dims) - 1)
    return acc


def reshape(a, shape):
    """Shapes: list of dimension names, 1 or -1; only axes of length one may appear or vanish."""
    big = [d for d in a.dims if d != 1]
    want = [d for d in shape if d != 1]
    if -1 in want:
        k = want.index(-1)
        rest = [d for d in want if d != -1]
        left = list(big)
        for d in rest:
            if d not in left:
                raise Unknown(f"reshape of {a.dims} to {shape}")
            left.remove(d)
        if len(left) > 1:
            raise Unknown("reshape that joins axes")
        want[k:k + 1] = left
        shape = [(left[0] if left else 1) if d == -1 else d for d in shape]
    if want != big:
        if sorted(want) == sorted(big):
            return opaque(f"reordered to {shape}", [a], tuple(shape))
        raise Unknown(f"reshape of {a.dims} to {shape}")
    a = squeeze(a)
    for i, d in enumerate(shape):
        if d == 1:
            a = expand(a, i)
    return a


class Reader:
    """Terms -> tensors, given the shapes of the leaves."""

    def __init__(self, shapes, sizes=None):
        self.shapes = shapes  # term -> dims (leaf) or Tn
        self.sizes = sizes or {}  # term -> dimension name or 1
        self.memo = {}
        self.case = CASE

    def __call__(self, t):
        if self.case is not CASE:
            self.case, self.memo = CASE, {}
        if t not in self.memo:
            self.memo[t] = self.read(t)
        return self.memo[t]

    def replaced(self, t):
        """Tensor of a leaf that the current case makes equal to another value."""
        if t not in self.shapes:
            return None
        for a, b in self.case.equal_pairs():
            for x, y in ((a, b), (b, a)):
                if x is t and y is not t and t not in T.subterms(y):
                    d = self.shapes[t]
                    d = d.dims if isinstance(d, Tn) else d
                    old, self.case = self.case, Case({c: v for c, v in self.case.conds.items() if t not in T.subterms(c)})
                    memo, self.memo = self.memo, {}
                    try:
                        v = self.read(y)
                    except Unknown:
                        continue
                    finally:
                        self.case, self.memo = old, memo
                    if len(v.dims) < len(d) or v.dims == d and T.show(y) < T.show(t):
                        return add(v, Tn(d, {}))
        return None

    def read(self, t):
        if self.case.conds:
            v = self.replaced(t)
            if v is not None:
                return v
        if t in self.shapes:
            s = self.shapes[t]
            return s if isinstance(s, Tn) else leaf(T.show(t), s)
        if t in self.sizes:
            d = self.sizes[t]
            return const(1) if d == 1 else leaf(f"dim {d}", ())
        if T.is_finite_num(t):
            return const(Fraction(t.args[1]))
        if t.op == "sum":
            out = None
            for c, m in t.args:
                x = const(c)
                for a, e in m:
                    x = mul(x, power(self(a), e))
                out = x if out is None else add(out, x)
            return out
        if t.op == "call":
            return self.call(t)
        if t.op == "item":
            return self.item(self(t.args[0]), t.args[1])
        if t.op == "ite":
            c = self.known(t.args[0])
            if c is None:
                a, b = self(t.args[1]), self(t.args[2])
                if a == b:
                    return a
                raise Undecided(self.open(t.args[0]))
            return self(t.args[1] if c else t.args[2])
        if t.op in ("list", "tuple"):
            xs = [self(x) for x in t.args]
            if len(xs) == 1:
                return expand(xs[0], 0)
        if t.op == "attr" and t.args[1] in ("size",) or t.op == "item" and t.args[0].op == "attr":
            return self.size(t)
        if t.op == "attr" and t.args[1] == "T":
            return transpose(self(t.args[0]))
        raise Unknown(f"{T.show(t)[:100]}")

    def open(self, c):
        """An undecided condition without connectives within c."""
        while c.op in ("not", "and", "or"):
            c = next(a for a in c.args if self.known(a) is None)
        return c

    def known(self, c):
        if c in self.case.conds:
            return self.case.conds[c]
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        if c.op == "not":
            v = self.known(c.args[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [self.known(a) for a in c.args]
            if c.op == "and":
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if c.op == "cmp":
            a, b = (self.number(x) for x in c.args[1:])
            if a is not None and b is not None:
                return {"==": a == b, "<": a < b, "<=": a <= b}.get(c.args[0])
            if c.args[0] == "==" and T.NONE in c.args[1:]:
                o = c.args[2] if c.args[1] is T.NONE else c.args[1]
                if o is T.NONE:
                    return True
                try:
                    self(o)
                    return False
                except Unknown:
                    return None
        return None

    def number(self, t):
        """Value of a rank or constant."""
        if T.is_finite_num(t):
            return t.args[1]
        if t.op == "attr" and t.args[1] == "ndim" or t.op == "call" and t.args[0] in ("numpy.ndim",):
            try:
                return len(self(t.args[0] if t.op == "attr" else t.args[1][0]).dims)
            except Unknown:
                return None
        if t.op == "call" and t.args[0] == "len" and t.args[1][0].op == "attr" and t.args[1][0].args[1] == "shape":
            try:
                return len(self(t.args[1][0].args[0]).dims)
            except Unknown:
                return None
        return None

    def dimname(self, t):
        """Dimension name of a size expression; -1; or 1."""
        if T.is_finite_num(t):
            v = t.args[1]
            if v in (1, -1):
                return int(v)
            raise Unknown("constant size")
        if t in self.sizes:
            return self.sizes[t]
        if t.op == "call" and t.args[0] == "len":
            return self(t.args[1][0]).dims[0]
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and T.is_finite_num(t.args[1]):
            return self(t.args[0].args[0]).dims[int(t.args[1].args[1])]
        if t.op == "attr" and t.args[1] == "size":
            big = [d for d in self(t.args[0]).dims if d != 1]
            if len(big) <= 1:
                return big[0] if big else 1
        raise Unknown(f"size {T.show(t)[:80]}")

    def size(self, t):
        d = self.dimname(t)
        return const(1) if d == 1 else leaf(f"dim {d}", ())

    def shape(self, t):
        if t.op in ("tuple", "list"):
            return [self.dimname(x) for x in t.args]
        if t.op == "attr" and t.args[1] == "shape":
            return list(self(t.args[0]).dims)
        return [self.dimname(t)]

    def axis(self, kw, n, args=(), pos=1):
        a = kw.get("axis")
        if a is None and len(args) > pos:
            a = args[pos]
        if a is None or a is T.NONE:
            return None
        if not T.is_finite_num(a):
            raise Unknown("variable axis")
        return int(a.args[1]) % n

    def call(self, t):
        name, args, kw = t.args[0], t.args[1], dict(t.args[2])
        n = str(name).replace("numpy.", "np.").split(".")[-1]
        if n == "matmul":
            return matmul(self(args[0]), self(args[1]))
        if n in ("inner", "vdot") and len(args) == 2:
            a, b = self(args[0]), self(args[1])
            if len(a.dims) == 1 == len(b.dims):
                return matmul(a, b)
        if n == "transpose":
            a = self(args[0])
            if len(args) > 1 or "axes" in kw:
                ax = args[1] if len(args) > 1 else kw["axes"]
                return transpose(a, [int(x.args[1]) for x in ax.args])
            return transpose(a)
        if n == "swapaxes":
            a = self(args[0])
            i, j = (int(x.args[1]) % len(a.dims) for x in args[1:3])
            ax = list(range(len(a.dims)))
            ax[i], ax[j] = j, i
            return transpose(a, ax)
        if n in ("sum", "mean", "average", "nansum") and not (n == "average" and ("weights" in kw or len(args) > 2)):
            if set(kw) - {"axis", "keepdims"}:
                raise Unknown(f"{n} with {sorted(kw)}")
            a = self(args[0])
            ax = self.axis(kw, len(a.dims) or 1, args)
            keep = kw.get("keepdims") is T.TRUE
            axes = list(range(len(a.dims))) if ax is None else [ax]
            size = const(1)
            for x in sorted(axes, reverse=True):
                if n != "sum" and a.dims[x] != 1:
                    size = mul(size, leaf(f"dim {a.dims[x]}", ()))
                a = contract(a, x)
            if keep:
                for x in sorted(axes):
                    a = expand(a, x)
            return a if n in ("sum", "nansum") else mul(a, inverse(size))
        if n == "einsum":
            if not (args[0].op == "const" and isinstance(T.cval(args[0]), str)):
                raise Unknown("einsum")
            return einsum(T.cval(args[0]), [self(x) for x in args[1:]])
        if n == "outer":
            a, b = self(args[0]), self(args[1])
            if "multiply" in str(name):
                for _ in range(len(b.dims)):
                    a = expand(a, len(a.dims))
                return mul(a, b)
            a, b = (expand(x, 0) if not x.dims else x for x in (a, b))
            if len(a.dims) == 1 == len(b.dims):
                return mul(expand(a, 1), expand(b, 0))
        if n == "tensordot":
            ax = kw.get("axes", args[2] if len(args) > 2 else None)
            a, b = self(args[0]), self(args[1])
            if ax is not None and T.is_finite_num(ax) and ax.args[1] == 1:
                la = "abcdefg"[:len(a.dims)]
                lb = la[-1] + "opqrst"[:len(b.dims) - 1]
                return einsum(f"{la},{lb}->{la[:-1]}{lb[1:]}", [a, b])
        if n in ("atleast_1d", "atleast_2d"):
            a = self(args[0])
            while len(a.dims) < (1 if n == "atleast_1d" else 2):
                a = expand(a, 0)
            return a
        if n in ("ravel", "flatten"):
            a = self(args[0])
            return reshape(a, [-1]) if any(d != 1 for d in a.dims) else reshape(a, [1])
        if n == "reshape":
            a = self(args[0])
            sh = args[1] if len(args) == 2 else T.mk("tuple", *args[1:])
            if "order" in kw:
                raise Unknown("order")
            return reshape(a, self.shape(sh))
        if n == "squeeze":
            a = self(args[0])
            ax = self.axis(kw, len(a.dims) or 1, args)
            return squeeze(a) if ax is None else drop_axis(a, ax)
        if n == "expand_dims":
            a = self(args[0])
            return expand(a, self.axis(kw, len(a.dims) + 1, args))
        if n in ("array", "asarray", "asanyarray", "copy", "deepcopy", "ascontiguousarray", "asfarray"):
            return self(args[0])
        if n in ("float", "item", "float64"):
            return squeeze(self(args[0]))
        if n == "zeros":
            return Tn([d for d in self.shape(args[0] if args else kw["shape"])], {})
        if n == "ones":
            return Tn([d for d in self.shape(args[0] if args else kw["shape"])], {(): Fraction(1)})
        if n in ("zeros_like", "ones_like"):
            return Tn(self(args[0]).dims, {} if n[0] == "z" else {(): Fraction(1)})
        if n == "full":
            v = self(args[1] if len(args) > 1 else kw["fill_value"])
            return Tn(_bdims(Tn(self.shape(args[0]), {}), v), v.poly) if not v.dims else add(Tn(self.shape(args[0]), {}), v)
        if n == "full_like":
            return add(Tn(self(args[0]).dims, {}), self(args[1]))
        if n in ("diag",):
            a = self(args[0])
            if len(a.dims) == 2:
                return diagonal(a, 0, 1)
        if n == "trace":
            return contract(diagonal(self(args[0]), 0, 1), 0)
        if n == "broadcast_to":
            return add(Tn(self.shape(args[1]), {}), self(args[0]))
        if n in ("square",):
            return power(self(args[0]), 2)
        if n == "norm" and not kw and len(args) == 1:
            a = self(args[0])
            if len(a.dims) == 1:
                return opaque("sqrt", [contract(mul(a, a), 0)])
        if n in ("sqrt", "exp", "log", "abs", "sign", "maximum", "minimum", "clip") and not kw:
            return opaque(n, [self(x) for x in args])
        if n == "pow" and T.is_finite_num(args[1]) and Fraction(args[1].args[1]).denominator == 1:
            return power(self(args[0]), int(args[1].args[1]))
        if n in ("len",):
            return self.size(t)
        raise Unknown(f"{T.show(t)[:100]}")

    def item(self, a, k):
        ks = list(k.args) if k.op == "tuple" else [k]
        n = sum(1 for x in ks if x is not T.NONE and x.op != "ellipsis")
        out = []
        for x in ks:
            if x.op == "ellipsis":
                out += [T.mk("slice", T.NONE, T.NONE, T.NONE)] * (len(a.dims) - n)
            else:
                out.append(x)
        pos = 0
        for x in out:
            if x is T.NONE:
                a = expand(a, pos)
                pos += 1
            elif x.op == "slice" and all(y is T.NONE for y in x.args):
                pos += 1
            elif T.is_finite_num(x):
                if a.dims[pos] == 1 and x.args[1] in (0, -1):
                    a = drop_axis(a, pos)
                else:
                    raise Unknown("element of a longer axis")
            else:
                raise Unknown(f"index {T.show(x)[:60]}")
        return a
