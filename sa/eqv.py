"""Equality of two values by decision tables.

Both values are tabulated over the conditions they mention; a row is a
consistent assignment of the conditions.  They are equal when every row gives
the same normal form.  Conditions that compare numbers are grouped by the sign
of the difference, so `a - b >= c` and `not a < b + c` are one condition.
"""
from fractions import Fraction

from . import terms as T


class TooBig(Exception):
    pass


def _lead(d):
    items = sorted(((m, c) for m, c in d.items() if c), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    nonconst = [x for x in items if x[0] != ()]
    return (nonconst or items)[0][1] if items else None


def sign_key(t):
    """(difference term, flipped) of a numeric comparison, or None."""
    if t.op != "cmp" or t.args[0] not in ("<", "<=", "=="):
        return None
    op, a, b = t.args
    if T._inf_like(a) or T._inf_like(b):
        return None
    if op == "==":
        for x in (a, b):
            if T.is_const(x) and not T.is_num(x):
                return None
            if x.op in ("sym", "attr", "item", "elem", "phi", "ev", "list", "tuple", "rec"):
                y = b if x is a else a
                if not (T.is_num(y) and not isinstance(T.cval(y), bool)):
                    if not (a.op == "sum" or b.op == "sum"):
                        return None
    d = T.sub(a, b)
    s = T.to_sum(d)
    c = _lead(s)
    if c is None:
        return None
    flip = c < 0
    k = abs(c)
    d = T.from_sum({m: (-v if flip else v) / Fraction(k) for m, v in s.items()})
    return d, flip


def literals(t, out=None, seen=None):
    """Boolean literals a value depends on, outermost first."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    for s in T.subterms(t):
        if s.op == "ite":
            _lits(s.args[0], out, seen)
        elif s.op in ("and", "or", "not"):
            _lits(s, out, seen)
    if T._boolish(t):
        _lits(t, out, seen)
    return out


def _lits(c, out, seen):
    if c in seen:
        return
    seen.add(c)
    if c.op in ("and", "or", "not"):
        for x in c.args:
            _lits(x, out, seen)
    elif c.op == "ite":
        for x in c.args:
            _lits(x, out, seen)
    elif c.op == "const":
        return
    elif c not in out:
        out.append(c)


def assign(ts, lit, value):
    """Rows for `lit`: substitute every condition decided by this choice."""
    m = {lit: T.TRUE if value else T.FALSE}
    if lit.op == "cmp" and lit.args[0] == "==" and value:
        a, b = lit.args[1], lit.args[2]
        for x, k in ((a, b), (b, a)):
            if T.is_const(k) and not T.is_const(x):
                m[x] = k
                break
    return [T.subst(t, m) for t in ts]


def assign_sign(ts, d, sign):
    m = {}
    for t in ts:
        for s in T.subterms(t):
            k = sign_key(s) if s.op == "cmp" else None
            if k is None or k[0] is not d:
                continue
            sg = -sign if k[1] else sign
            op = s.args[0]
            v = {"<": sg < 0, "<=": sg <= 0, "==": sg == 0}[op]
            m[s] = T.TRUE if v else T.FALSE
    out = [T.subst(t, m) for t in ts]
    if sign == 0:
        out = [T.subst(t, zero_subst(d)) for t in out]
    return out


def zero_subst(d):
    """d == 0 lets one atom be expressed by the others (x - k == 0: x = k)."""
    s = T.to_sum(d)
    for m, c in s.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            x = m[0][0]
            if x.op in ("const", "sum"):
                continue
            rest = T.from_sum({k: (-v if c == 1 else v) for k, v in s.items() if k != m})
            if not any(u is x for u in T.subterms(rest)):
                return {x: rest}
    return {}


def expand_minmax(t):
    for s in T.subterms(t):
        if s.op in ("min", "max") and not any(c.op in ("min", "max") and c is not s for a in s.args for c in T.subterms(a)):
            r = s.args[0]
            for x in s.args[1:]:
                c = T.cmp("<=", r, x)
                r = T.ite(c, r, x) if s.op == "min" else T.ite(c, x, r)
            return T.subst(t, {s: r}), True
    return t, False


def pick(ts):
    """A condition that itself contains no undecided condition."""
    first = None
    for t in ts:
        for lit in literals(t):
            if first is None:
                first = lit
            if not any(u.op == "ite" for u in T.subterms(lit)):
                return lit
    return first


def linear_conflict(d, sg, path):
    """The sign of d contradicts at most two of the signs already chosen."""
    known = [(p, v) for p, v in path if v is not True and v is not False]
    for p, v in known:
        if p is d and v != sg:
            return True
        if v != sg and T.alg_equal(p, d):
            return True
        if v != -sg and T.alg_equal(p, T.neg(d)):
            return True
    if sg == 0:
        xs = [d, T.neg(d)]
    else:
        xs = [d if sg > 0 else T.neg(d)]
    nonneg = []
    for p, v in known:
        if v >= 0:
            nonneg.append((p, v != 0))
        if v <= 0:
            nonneg.append((T.neg(p), v != 0))

    def bad(u, strict):
        return T.is_num(u) and T.is_const(u) and (T.cval(u) < 0 or (strict and T.cval(u) <= 0))

    for x in xs:
        for i, (p, sp) in enumerate(nonneg):
            u = T.add(x, p)
            if bad(u, sp or sg != 0):
                return True
            for q, sq in nonneg[i + 1:]:
                if bad(T.add(u, q), sp or sq or sg != 0):
                    return True
    return False


def rows(ts, impossible=None, limit=3000, norm=None):
    """Yield (row conditions, values) of the joint decision table."""
    norm = norm or (lambda t: t)
    stack = [([norm(t) for t in ts], [])]
    n = 0
    while stack:
        cur, path = stack.pop()
        lit = pick(cur)
        if lit is None:
            n += 1
            if n > limit:
                raise TooBig()
            yield path, cur
            continue
        k = sign_key(lit)
        if k is not None:
            d = k[0]
            for sg in (-1, 0, 1):
                if linear_conflict(d, sg, path):
                    continue
                if impossible and impossible(d, sg, path):
                    continue
                stack.append(([norm(t) for t in assign_sign(cur, d, sg)], path + [(d, sg)]))
        else:
            for v in (True, False):
                if impossible and impossible(lit, v, path):
                    continue
                stack.append(([norm(t) for t in assign(cur, lit, v)], path + [(lit, v)]))


def equal(a, b, impossible=None, same=None, limit=3000):
    """(True, None) or (False, explanation of a differing row)."""
    if a is b:
        return True, None
    same = same or (lambda x, y: x is y or T.alg_equal(x, y))

    def run(x, y, expanded):
        for path, (u, v) in rows([x, y], impossible, limit):
            if same(u, v):
                continue
            if not expanded:
                eu, ev, ch = u, v, False
                for _ in range(12):
                    eu, c1 = expand_minmax(eu)
                    ev, c2 = expand_minmax(ev)
                    if not (c1 or c2):
                        break
                    ch = True
                if ch:
                    r = run_cond(eu, ev, path)
                    if r is None:
                        continue
                    return r
            return path, u, v
        return None

    def run_cond(x, y, path0):
        for path, (u, v) in rows([x, y], lambda c, s, p: inconsistent(c, s, path0 + p) or
                                 (impossible and impossible(c, s, path0 + p)), limit):
            if not same(u, v):
                return path0 + path, u, v
        return None

    r = run(a, b, False)
    if r is None:
        return True, None
    path, u, v = r
    return False, explain(path) + f"{T.show(u)[:160]}  but expected  {T.show(v)[:160]}"


def inconsistent(c, s, path):
    for d, v in path:
        if d is c and v is not s and v != s:
            return True
    return False


def explain(path):
    out = []
    for c, v in path:
        if v is True:
            out.append(T.show(c)[:90])
        elif v is False:
            out.append("not " + T.show(c)[:90])
        else:
            out.append(f"{T.show(c)[:90]} {'<' if v < 0 else '>' if v > 0 else '=='} 0")
    return ("when " + " and ".join(out[-5:]) + ": ") if out else ""
