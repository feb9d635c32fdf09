"""Order prover: does a term stay above / below a bound?

Works on the normal form only (min, max, sums, conditionals); no solver.
"""
from . import terms as T
from .proof import contradictory, with_fact


class Order:
    def __init__(self, ge=(), le=(), nonneg=(), vacuous=(), member=None):
        """ge / le: pairs (term, bound) known to hold.  nonneg: terms >= 0.
        vacuous: (condition, value, bound): under condition == value nothing is
        required of the bound (there is none)."""
        self.GE = set(ge)
        self.LE = set(le)
        self.nn = set(nonneg)
        self.vac = list(vacuous)
        self.member = member

    def nothing_required(self, b, facts):
        for c, v, bb in self.vac:
            if bb is b and T.decide(c, facts) is v:
                return True
        return False

    def nonneg(self, t, facts=None, depth=0):
        facts = facts or {}
        if depth > 30:
            return False
        if t in self.nn:
            return True
        if T.is_num(t):
            return T.cval(t) >= 0
        if t.op == "pi":
            return True
        if t.op == "ite":
            return self._split(t, facts, lambda x, f: self.nonneg(x, f, depth + 1))
        if t.op == "max":
            return any(self.nonneg(x, facts, depth + 1) for x in t.args)
        if t.op == "min":
            return all(self.nonneg(x, facts, depth + 1) for x in t.args)
        if t.op == "call" and t.args[0] in ("numpy.exp", "numpy.linalg.norm", "numpy.abs", "numpy.sqrt", "abs", "len"):
            return True
        if t.op == "sum":
            return all(self._mono_nonneg(m, c, facts, depth) for m, c in T.to_sum(t).items())
        d = T.to_sum(t)
        if len(d) == 1:
            (m, c), = d.items()
            if m and not (len(m) == 1 and m[0][0] is t and m[0][1] == 1):
                return self._mono_nonneg(m, c, facts, depth)
        return False

    def _mono_nonneg(self, m, c, facts, depth):
        if c < 0:
            return False
        for base, p in m:
            if isinstance(p, int) and p % 2 == 0:
                continue
            if not self.nonneg(base, facts, depth + 1):
                return False
        return True

    def _split(self, t, facts, k):
        c = t.args[0]
        r = T.decide(c, facts)
        for v, x in ((True, t.args[1]), (False, t.args[2])):
            if r is not None and r is not v:
                continue
            f = with_fact(facts, c, v)
            if contradictory(f):
                continue
            if not k(x, f):
                return False
        return True

    def ge(self, t, b, facts=None, depth=0):
        return self._cmp(t, b, facts or {}, True, depth)

    def le(self, t, b, facts=None, depth=0):
        return self._cmp(t, b, facts or {}, False, depth)

    def _cmp(self, t, b, facts, up, depth):
        if depth > 60:
            return False
        if t is b or self.nothing_required(b, facts):
            return True
        if (t, b) in (self.GE if up else self.LE):
            return True
        if self.member and self.member(t, b, up):
            return True
        if T.is_num(t) and T.is_num(b):
            return T.cval(t) >= T.cval(b) if up else T.cval(t) <= T.cval(b)
        op = t.op
        if op == "ite":
            return self._split(t, facts, lambda x, f: self._cmp(x, b, f, up, depth + 1))
        if op == "max":
            q = any if up else all
            if q(self._cmp(x, b, facts, up, depth + 1) for x in t.args):
                return True
            c = self._arg_ite(t)
        elif op == "min":
            q = all if up else any
            if q(self._cmp(x, b, facts, up, depth + 1) for x in t.args):
                return True
            c = self._arg_ite(t)
        elif op in ("item", "elem") or (op == "call" and t.args[0] in ("numpy.atleast_2d", "numpy.array")):
            src = t.args[0] if op != "call" else t.args[1][0]
            return self._cmp(src, b, facts, up, depth + 1)
        else:
            # t = s + rest with s related to b and rest of one sign
            d = T.to_sum(t)
            if len(d) > 1:
                for m, c in d.items():
                    if c == 1 and len(m) == 1 and m[0][1] == 1:
                        s = m[0][0]
                        rest = T.sub(t, s)
                        if not up:
                            rest = T.neg(rest)
                        if self.nonneg(rest, facts) and self._cmp(s, b, facts, up, depth + 1):
                            return True
            c = self._arg_ite(t) if len(d) > 1 else None
        if c is not None and T.decide(c, facts) is None:
            for v in (True, False):
                f = with_fact(facts, c, v)
                if contradictory(f):
                    continue
                if not self._cmp(resolve(t, f), b, f, up, depth + 1):
                    return False
            return True
        if c is not None:
            t2 = resolve(t, facts)
            if t2 is not t:
                return self._cmp(t2, b, facts, up, depth + 1)
        return False

    def _arg_ite(self, t):
        for s in T.subterms(t):
            if s.op == "ite":
                return s.args[0]
        return None


def resolve(t, facts):
    """Rewrite t with every conditional decided by the facts removed."""
    m = {}
    for s in T.subterms(t):
        if s.op == "ite":
            r = T.decide(s.args[0], facts)
            if r is True:
                m[s] = s.args[1]
            elif r is False:
                m[s] = s.args[2]
    for _ in range(8):
        if not m:
            return t
        t = T.subst(t, m)
        m = {}
        for s in T.subterms(t):
            if s.op == "ite":
                r = T.decide(s.args[0], facts)
                if r is not None:
                    m[s] = s.args[1] if r else s.args[2]
    return t
