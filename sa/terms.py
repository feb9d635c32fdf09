"""Hash-consed symbolic terms with a normal form for arithmetic, order and booleans.

Terms are what the value-flow analysis computes for every expression.  Two
expressions that are written differently but mean the same thing (renamed
variables, extracted helpers, reordered sums, ``a > b`` against ``b < a``,
``np.clip`` against ``np.minimum(np.maximum())`` ...) get the same term.
"""
from fractions import Fraction


class Term:
    __slots__ = ("op", "args", "id", "_atoms")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


_table = {}


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_table)
        t._atoms = None
        _table[key] = t
    return t


# ------------------------------------------------------------------ constants
def const(v):
    return mk("const", type(v).__name__, v if not isinstance(v, float) else float(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def inf():
    return mk("const", "float", float("inf"))


INF = inf()
NINF = mk("const", "float", float("-inf"))
NAN = mk("nan")
PI = mk("pi")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def is_num(t):
    return t.op == "const" and t.args[0] in ("int", "float", "bool", "Fraction")


def is_finite_num(t):
    return is_num(t) and t.args[1] not in (float("inf"), float("-inf"))


def sym(name):
    return mk("sym", name)


def call(name, /, *args, **kw):
    return mk("call", name, tuple(args), tuple(sorted(kw.items())))


# ----------------------------------------------------------------- arithmetic
def num_const(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return const(int(v))
        f = float(v)
        return const(f)
    return const(v)


def to_sum(t):
    """Return dict monomial -> Fraction.  monomial: tuple of (atom, exponent)."""
    if t.op == "sum":
        return {m: c for c, m in t.args}
    if is_finite_num(t):
        v = Fraction(t.args[1])
        return {(): v} if v != 0 else {}
    return {((t, 1),): Fraction(1)}


def from_sum(d):
    items = [(c, m) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        c, m = items[0]
        if m == ():
            return num_const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda cm: tuple((a.id, e) for a, e in cm[1]))
    return mk("sum", *items)


def mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def add(a, b):
    if _inf_like(a) or _inf_like(b):
        return _inf_add(a, b)
    d = dict(to_sum(a))
    for m, c in to_sum(b).items():
        d[m] = d.get(m, 0) + c
    return from_sum(d)


def _inf_like(t):
    return t is INF or t is NINF or t is NAN


def _inf_add(a, b):
    if a is NAN or b is NAN:
        return NAN
    if _inf_like(a) and (is_finite_num(b) or b is a):
        return a
    if _inf_like(b) and is_finite_num(a):
        return b
    return mk("sum_inf", *sorted((a, b), key=lambda x: x.id))


def neg(a):
    if a is INF:
        return NINF
    if a is NINF:
        return INF
    if a is NAN:
        return NAN
    if a.op == "ite" and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], neg(a.args[1]), neg(a.args[2]))
    return from_sum({m: -c for m, c in to_sum(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if _inf_like(a) or _inf_like(b):
        if a is NAN or b is NAN:
            return NAN
        for p, q in ((a, b), (b, a)):
            if _inf_like(p) and is_finite_num(q) and q.args[1] != 0:
                return p if q.args[1] > 0 else neg(p)
        return call("mul_inf", *sorted((a, b), key=lambda x: x.id))
    da, db = to_sum(a), to_sum(b)
    if len(da) * len(db) > 200:
        return call("mul", *sorted((a, b), key=lambda x: x.id))
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_sum(d)


def inv(a):
    if is_finite_num(a) and a.args[1] != 0:
        return num_const(1 / Fraction(a.args[1]))
    if _inf_like(a):
        return ZERO if a is not NAN else NAN
    d = to_sum(a)
    if len(d) == 1:
        (m, c), = d.items()
        return from_sum({tuple((x, -e) for x, e in m): 1 / c})
    if not d:
        return call("div0")
    # normalise so that the leading coefficient is one
    lead = min(d, key=lambda m: tuple((x.id, e) for x, e in m))
    c = d[lead]
    p = from_sum({m: v / c for m, v in d.items()})
    return from_sum({((p, -1),): 1 / c})


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    if is_finite_num(b):
        e = Fraction(b.args[1])
        if e == 1:
            return a
        if e == 0:
            return ONE
        if e.denominator == 1 and abs(e) <= 4 and not _inf_like(a):
            out = ONE
            for _ in range(abs(int(e))):
                out = mul(out, a)
            return out if e > 0 else inv(out)
        if is_finite_num(a):
            try:
                v = a.args[1] ** b.args[1]
                if not isinstance(v, complex):
                    return const(v)
            except (ZeroDivisionError, OverflowError):
                pass
        if e == Fraction(1, 2):
            return call("numpy.sqrt", a)
    return call("pow", a, b)


def ratio(t, depth=0):
    """Term -> (numerator, denominator) as sum dicts without negative exponents."""
    n, d = {(): Fraction(0)}, {(): Fraction(1)}
    for m, c in to_sum(t).items():
        mn, md = {(): c}, {(): Fraction(1)}
        for a, e in m:
            an, ad = ({((a, 1),): Fraction(1)}, {(): Fraction(1)})
            if a.op == "sum" and depth < 6:
                an, ad = ratio(a, depth + 1)
            if e < 0:
                an, ad, e = ad, an, -e
            for _ in range(e):
                mn, md = _pmul(mn, an), _pmul(md, ad)
        n, d = _padd(_pmul(n, md), _pmul(mn, d)), _pmul(d, md)
    return {m: c for m, c in n.items() if c}, {m: c for m, c in d.items() if c}


def _pmul(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
    return out


def _padd(p, q):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + c
    return out


def alg_equal(a, b):
    """Equality as rational functions of the atoms."""
    if a is b:
        return True
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return alg_equal(a.args[1], b.args[1]) and alg_equal(a.args[2], b.args[2])
    if _inf_like(a) or _inf_like(b):
        return False
    n1, d1 = ratio(a)
    n2, d2 = ratio(b)
    x, y = _pmul(n1, d2), _pmul(n2, d1)
    x = {m: c for m, c in x.items() if c}
    y = {m: c for m, c in y.items() if c}
    return x == y


# -------------------------------------------------------------- min and max
def _lattice(op, unit, absorb, terms):
    flat = []
    for t in terms:
        if t.op == op:
            flat.extend(t.args)
        else:
            flat.append(t)
    nums = [t for t in flat if is_num(t)]
    rest = {t for t in flat if not is_num(t)}
    if nums:
        f = max if op == "max" else min
        v = f(nums, key=lambda t: t.args[1])
        if v is absorb:
            return absorb
        if v is not unit or not rest:
            rest.add(v)
    if len(rest) == 1:
        return next(iter(rest))
    return mk(op, *sorted(rest, key=lambda x: x.id))


def tmax(*ts):
    return _lattice("max", NINF, INF, ts)


def tmin(*ts):
    return _lattice("min", INF, NINF, ts)


# ------------------------------------------------------------------ booleans
BOOL_OPS = {"cmp", "not", "and", "or", "truth", "bool", "exc", "brk", "isinst"}


def truth(t):
    if t.op == "const":
        v = t.args[1]
        return TRUE if v else FALSE
    if t.op in BOOL_OPS:
        return t
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ("list", "tuple", "set"):
        return TRUE if t.args else FALSE
    if t.op == "dict":
        if not t.args:
            return FALSE
        if any(a.op == "kv" for a in t.args):
            return TRUE
    if t.op in ("map", "dmap") and t.args[-1] is TRUE:
        return tnot(cmp("==", ZERO, call("len", t.args[0])))
    if t.op == "call" and t.args[0] in BOOL_CALLS:
        return t
    return mk("truth", t)


BOOL_CALLS = {
    "numpy.all", "numpy.any", "numpy.isfinite", "numpy.isnan", "numpy.isinf",
    "callable", "isinstance", "numpy.isscalar", "numpy.isclose", "numpy.allclose",
}


def tnot(t):
    t = truth(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "and":
        return tor(*[tnot(x) for x in t.args])
    if t.op == "or":
        return tand(*[tnot(x) for x in t.args])
    if t.op == "ite":
        return ite(t.args[0], tnot(t.args[1]), tnot(t.args[2]))
    return mk("not", t)


def _junction(op, unit, zero, terms):
    flat = []
    for t in terms:
        t = truth(t)
        if t.op == op:
            flat.extend(t.args)
        else:
            flat.append(t)
    s = set(flat)
    s.discard(unit)
    if zero in s:
        return zero
    for t in list(s):
        if tnot(t) in s:
            return zero
    # absorption: a and (a or b) -> a ; a and (not a or b) -> a and b
    dual = "or" if op == "and" else "and"
    changed = True
    while changed:
        changed = False
        for t in list(s):
            if t.op == dual:
                parts = set(t.args)
                if parts & (s - {t}):
                    s.discard(t)
                    changed = True
                    break
                dead = {p for p in parts if tnot(p) in s}
                if dead:
                    s.discard(t)
                    r = _junction(dual, zero, unit, list(parts - dead))
                    if r.op == op:
                        s.update(r.args)
                    elif r is zero:
                        return zero
                    elif r is not unit:
                        s.add(r)
                    changed = True
                    break
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s))
    return mk(op, *sorted(s, key=lambda x: x.id))


def tand(*ts):
    return _junction("and", TRUE, FALSE, ts)


def tor(*ts):
    return _junction("or", FALSE, TRUE, ts)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if _boolish(a) and a.op != "const":
        r = decide(a, {c: True})
        a = a if r is None else (TRUE if r else FALSE)
    if _boolish(b) and b.op != "const":
        r = decide(b, {c: False})
        b = b if r is None else (TRUE if r else FALSE)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return tnot(c)
    if _boolish(a) and _boolish(b):
        if a is TRUE:
            return tor(c, b)
        if a is FALSE:
            return tand(tnot(c), b)
        if b is TRUE:
            return tor(tnot(c), a)
        if b is FALSE:
            return tand(c, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    return mk("ite", c, a, b)


def _boolish(t):
    return t is TRUE or t is FALSE or t.op in BOOL_OPS or (
        t.op == "call" and t.args[0] in BOOL_CALLS
    )


def assume(t, c, val, _depth=0):
    """Simplify top-level ite structure of t under the fact c == val."""
    while t.op == "ite":
        k = t.args[0]
        r = decide(k, {c: val})
        if r is True:
            t = t.args[1]
        elif r is False:
            t = t.args[2]
        else:
            break
    return t


def decide(t, facts):
    """Three-valued evaluation of a boolean term under literal facts."""
    t = truth(t)
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t in facts:
        return facts[t]
    if t.op == "not":
        r = decide(t.args[0], facts)
        return None if r is None else (not r)
    if t.op == "and":
        rs = [decide(x, facts) for x in t.args]
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else None
    if t.op == "or":
        rs = [decide(x, facts) for x in t.args]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if t.op == "ite":
        r = decide(t.args[0], facts)
        if r is True:
            return decide(t.args[1], facts)
        if r is False:
            return decide(t.args[2], facts)
        a, b = decide(t.args[1], facts), decide(t.args[2], facts)
        return a if a is b else None
    if t.op == "cmp":
        return _decide_cmp(t, facts)
    return None


def _decide_cmp(t, facts):
    op, a, b = t.args
    # x == 'a' known -> x == 'b' false
    if op == "==":
        for x, k in ((a, b), (b, a)):
            if is_const(k):
                for f, v in facts.items():
                    if v and f.op == "cmp" and f.args[0] == "==":
                        for y, k2 in ((f.args[1], f.args[2]), (f.args[2], f.args[1])):
                            if y is x and is_const(k2) and k2 is not k:
                                if is_num(k) and is_num(k2) and k.args[1] == k2.args[1]:
                                    continue
                                return False
    if op == "<=":
        r = facts.get(cmp("<", a, b))
        if r is True:
            return True
        r = facts.get(cmp("==", a, b))
        if r is True:
            return True
        if facts.get(cmp("<", b, a)) is True:
            return False
    if op == "<":
        if facts.get(cmp("<=", b, a)) is True:
            return False
        if facts.get(cmp("<=", a, b)) is False:
            return False
        if facts.get(cmp("==", a, b)) is True:
            return False
    if op == "==":
        if facts.get(cmp("<", a, b)) is True or facts.get(cmp("<", b, a)) is True:
            return False
    return None


def split_fact(t, val, out):
    """Add the literals implied by (t == val) to dict out."""
    t = truth(t)
    if t.op == "const":
        return
    if t.op == "not":
        return split_fact(t.args[0], not val, out)
    if (t.op == "and" and val) or (t.op == "or" and not val):
        for x in t.args:
            split_fact(x, val, out)
        out[t] = val
        return
    out[t] = val


def cmp(op, a, b):
    """op in < <= > >= == != is in."""
    if op in (">", ">="):
        return cmp({">": "<", ">=": "<="}[op], b, a)
    if op == "!=":
        return tnot(cmp("==", a, b))
    if op == "is":
        # `is None` and `is True` on values: value equality is enough
        op = "=="
    if op == "is not":
        return tnot(cmp("==", a, b))
    if op == "not in":
        return tnot(cmp("in", a, b))
    # distribute over ite with constant leaves
    for i, x in ((0, a), (1, b)):
        if x.op == "ite" and _const_leaves(x) and (op in ("==", "in")):
            y = (a, b)[1 - i]
            mkc = (lambda u: cmp(op, u, y)) if i == 0 else (lambda u: cmp(op, y, u))
            if is_const(y) or y.op in ("list", "tuple", "set", "ite"):
                return ite(x.args[0], mkc(x.args[1]), mkc(x.args[2]))
    if op == "==":
        if a is b and a is not NAN:
            return TRUE
        if is_const(a) and is_const(b):
            try:
                return TRUE if a.args[1] == b.args[1] else FALSE
            except Exception:
                return FALSE
        if a is NONE or b is NONE:
            o = b if a is NONE else a
            if not maybe_none(o):
                return FALSE
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("cmp", "==", x, y)
    if op in ("<", "<="):
        if is_num(a) and is_num(b):
            r = a.args[1] < b.args[1] if op == "<" else a.args[1] <= b.args[1]
            return TRUE if r else FALSE
        if a is b and op == "<":
            return FALSE
        return mk("cmp", op, a, b)
    if op == "in":
        if b.op in ("list", "tuple", "set"):
            return tor(*[cmp("==", a, x) for x in b.args]) if b.args else FALSE
        return mk("cmp", "in", a, b)
    return mk("cmp", op, a, b)


def maybe_none(t):
    """May the value be None?  Syntactic."""
    if t.op in ("sym", "attr", "item", "elem", "phi", "ev", "exitphi"):
        return True
    if t.op == "const":
        return t.args[1] is None
    if t.op == "ite":
        return maybe_none(t.args[1]) or maybe_none(t.args[2])
    if t.op == "call":
        return t.args[0] in ("option", "getattr", ".get", "call") or t.args[0] == "next" and len(t.args[1]) > 1
    return False


def _const_leaves(t):
    if t.op == "ite":
        return _const_leaves(t.args[1]) and _const_leaves(t.args[2])
    return is_const(t)


# ------------------------------------------------------------ structure walks
def children(t):
    out = []

    def rec(x):
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)

    for a in t.args:
        rec(a)
    return out


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return seen


def rebuild(op, args):
    """Rebuild a node through the smart constructors."""
    if op == "sum":
        out = ZERO
        for c, m in args:
            p = num_const(c)
            for a, e in m:
                q = a
                if e < 0:
                    q = inv(a)
                for _ in range(abs(e)):
                    p = mul(p, q)
            out = add(out, p)
        return out
    if op == "ite":
        return ite(*args)
    if op == "cmp":
        return cmp(*args)
    if op == "not":
        return tnot(args[0])
    if op == "and":
        return tand(*args)
    if op == "or":
        return tor(*args)
    if op == "truth":
        return truth(args[0])
    if op == "max":
        return tmax(*args)
    if op == "min":
        return tmin(*args)
    if op == "call":
        f = REBUILD_CALL.get(args[0])
        if f is not None:
            return f(args)
    if op == "item":
        f = REBUILD_CALL.get("__item__")
        if f is not None:
            return f(*args)
    return mk(op, *args)


REBUILD_CALL = {}


def subst(t, mapping, memo=None):
    memo = {} if memo is None else memo
    if t in mapping:
        return mapping[t]
    r = memo.get(t)
    if r is not None:
        return r

    def rec(x):
        if isinstance(x, Term):
            return subst(x, mapping, memo)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x

    if not t.args:
        r = t
    else:
        new = tuple(rec(a) for a in t.args)
        r = t if new == t.args else rebuild(t.op, new)
    memo[t] = r
    return r


def leaves(t, facts=None):
    """Expand the outer ite structure: list of (facts dict, leaf)."""
    facts = {} if facts is None else facts
    if t.op == "ite":
        r = decide(t.args[0], facts)
        out = []
        if r is not False:
            f = dict(facts)
            split_fact(t.args[0], True, f)
            out += leaves(t.args[1], f)
        if r is not True:
            f = dict(facts)
            split_fact(t.args[0], False, f)
            out += leaves(t.args[2], f)
        return out
    return [(facts, t)]


# -------------------------------------------------------------------- display
def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if depth > 7:
        return "..."
    s = lambda x: show(x, depth + 1)  # noqa
    op, a = t.op, t.args
    if op == "const":
        return repr(a[1])
    if op == "sym":
        return a[0]
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "call":
        name = a[0].replace("numpy.", "np.")
        parts = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
        return f"{name}({', '.join(parts)})"
    if op == "sum":
        parts = []
        for c, m in a:
            ms = "*".join(s(x) + (f"**{e}" if e != 1 else "") for x, e in m)
            cs = str(c) if c.denominator == 1 else f"{float(c):g}"
            if not ms:
                parts.append(cs)
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append("-" + ms)
            else:
                parts.append(cs + "*" + ms)
        return "(" + " + ".join(parts).replace("+ -", "- ") + ")"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if op == "not":
        return f"not {s(a[0])}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(x) for x in a) + ")"
    if op in ("max", "min"):
        return f"{op}({', '.join(s(x) for x in a)})"
    if op == "truth":
        return f"bool({s(a[0])})"
    if op == "elem":
        return f"<element of {s(a[0])}>"
    if op == "phi":
        return f"<{a[1]} at loop head>"
    if op == "ev":
        return f"<{a[1]}#{a[0]}>"
    if op in ("list", "tuple", "set"):
        return op + "(" + ", ".join(s(x) for x in a) + ")"
    if op == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    return op + "(" + ", ".join(
        s(x) if isinstance(x, Term) else (
            "[" + ", ".join(show(y, depth + 1) for y in x) + "]" if isinstance(x, tuple) else str(x)
        ) for x in a
    ) + ")"
