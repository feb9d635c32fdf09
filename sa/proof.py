"""Qualifier and provenance inference over the terms of the value-flow analysis.

Loops are handled coinductively: a loop-head value has a property when its
entry value has it and its back-edge value has it under that hypothesis.
"""
from . import terms as T
from .interp import elem, item, vterm_obj
from .values import DictS, ListS, SetS, Value


class Flow:
    """Loop-head table of one analysis."""

    def __init__(self, it, st=None):
        self.it = it
        self.phi = {}
        for l in it.loops.values():
            for path, (a, h, b) in l.header.items():
                ht = self.term(h, l.head)
                if ht is None or ht.op != "phi":
                    if isinstance(h, (ListS, DictS)):
                        ht = h.parts[0][1]
                    elif isinstance(h, SetS):
                        ht = h.term
                    else:
                        continue
                self.phi[ht] = (self.term(a, l.head), self.term(b, l.back) if b is not None else None, l)
        self.byx = {}
        for idx, (xt, e) in getattr(it, "added", {}).items():
            self.byx.setdefault(xt, []).append(idx)

    def term(self, v, st):
        if isinstance(v, (ListS, DictS)):
            return vterm_obj(v, st)
        if isinstance(v, SetS):
            return v.term
        if isinstance(v, Value):
            try:
                return self.it.tm(v, st)
            except Exception:
                return None
        return None


def known_false(facts, c):
    return T.decide(c, facts) is False


def first_ite(*ts):
    for t in ts:
        if t.op == "ite":
            return t.args[0]
    return None


def simp(t, facts):
    """Resolve the outer ite structure of t under facts."""
    while t.op == "ite":
        r = T.decide(t.args[0], facts)
        if r is True:
            t = t.args[1]
        elif r is False:
            t = t.args[2]
        else:
            break
    return t


def with_fact(facts, c, v):
    f = dict(facts)
    T.split_fact(c, v, f)
    close(f)
    return f


def close(f):
    """Unit propagation over the compound facts."""
    changed = True
    n = 0
    while changed and n < 8:
        changed = False
        n += 1
        for c, v in list(f.items()):
            if c.op == "or" and v:
                live = [x for x in c.args if T.decide(x, f) is not False]
                if len(live) == 1 and T.decide(live[0], f) is None:
                    T.split_fact(live[0], True, f)
                    changed = True
            elif c.op == "and" and not v:
                live = [x for x in c.args if T.decide(x, f) is not True]
                if len(live) == 1 and T.decide(live[0], f) is None:
                    T.split_fact(live[0], False, f)
                    changed = True
            elif c.op == "ite":
                r = T.decide(c.args[0], f)
                if r is None:
                    continue
                sub = c.args[1] if r else c.args[2]
                if T.decide(sub, f) is None:
                    T.split_fact(sub, v, f)
                    changed = True


def contradictory(facts):
    for c, v in facts.items():
        if c.op in ("and", "or", "ite", "cmp"):
            g = {k: w for k, w in facts.items() if k is not c}
            r = T.decide(c, g)
            if r is not None and r is not v:
                return True
    return False


# ------------------------------------------------------------------ provenance
class Prov:
    """Which history entry a value belongs to."""

    def __init__(self, flow):
        self.flow = flow
        self.it = flow.it

    def x(self, t):
        out = set(self.flow.byx.get(t, ()))
        if t.op == "call" and t.args[0] == "xs":
            out.add(t.args[1][0])
        if t.op == "item":
            for i in self.x(t.args[0]):
                out.add(item(i, t.args[1]))
        if t.op == "elem":
            for i in self.x(t.args[0]):
                out.add(elem(i))
        return out

    def i(self, t):
        return {t}

    def f(self, t):
        """Indices whose mean function value t is."""
        out = set()
        if t.op == "call" and t.args[0] == "numpy.mean":
            kw = dict(t.args[2])
            if set(kw) - {"axis"} or kw.get("axis", T.ZERO) not in (T.ZERO, T.NONE, T.const(-1)):
                return out
            out |= self.fv(t.args[1][0])
        return out

    def fv(self, t):
        if t.op == "call" and t.args[0] == "fvals":
            return {t.args[1][0]}
        if t.op == "item" and t.args[0].op == "call" and t.args[0].args[0] == "fvals":
            d = t.args[0].args[1][0]
            out = {t.args[1]}
            # a dict of all evaluations keyed by index
            return out if d is not T.ZERO else set()
        return set()

    def versions(self, t):
        """(index, version) pairs of every function value read in t."""
        out = []
        for s in T.subterms(t):
            if s.op == "call" and s.args[0] in ("fvals", "fvecs"):
                out.append((s.args[1][0], s.args[1][1]))
        return out

    def coherent(self, ts, facts, hyp=frozenset(), depth=0):
        """Do the terms (x, fval, index) belong to one history entry?

        Returns (True, None) or (False, explanation)."""
        if depth > 200:
            return False, "case split too deep"
        ts = tuple(simp(t, facts) for t in ts)
        if ts in hyp:
            return True, None
        xs = self.x(ts[0])
        fs = self.f(ts[1]) if ts[1] is not None else None
        js = self.i(ts[2])
        common = xs & js if fs is None else xs & fs & js
        if common:
            return True, None
        if all(t.op == "phi" for t in ts) and all(t in self.flow.phi for t in ts) and \
                len({id(self.flow.phi[t][2]) for t in ts}) == 1:
            init = tuple(self.flow.phi[t][0] for t in ts)
            back = tuple(self.flow.phi[t][1] for t in ts)
            h = hyp | {ts}
            ok, why = self.coherent(init, {}, h, depth + 1)
            if not ok:
                return ok, "on entry: " + why
            if any(b is None for b in back):
                return True, None
            ok, why = self.coherent(back, {}, h, depth + 1)
            return ok, (None if ok else "after an iteration: " + why)
        c = first_ite(*ts)
        if c is not None:
            for v in (True, False):
                f = with_fact(facts, c, v)
                if contradictory(f):
                    continue
                ok, why = self.coherent(ts, f, hyp, depth + 1)
                if not ok:
                    return ok, why
            return True, None
        return False, "x=%s, fval=%s, index=%s" % tuple(T.show(t)[:160] for t in ts)

    # ------------------------------------------------------------ evaluations
    def info_alts(self, t):
        if t.op == "ite":
            return self.info_alts(t.args[1]) + self.info_alts(t.args[2])
        return [t]

    def evaluated(self, i, v, facts=None, need=None, hyp=frozenset(), depth=0):
        """Has index (or every index in) i been evaluated at version v?"""
        facts = facts or {}
        if depth > 60:
            return False
        key = (i, v)
        if key in hyp:
            return True
        if i.op == "ite":
            return (self.evaluated(i.args[1], v, with_fact(facts, i.args[0], True), need, hyp, depth + 1)
                    and self.evaluated(i.args[2], v, with_fact(facts, i.args[0], False), need, hyp, depth + 1))
        v = simp(v, facts)
        if v.op == "ite":
            return all(self.evaluated(i, w, with_fact(facts, v.args[0], b), need, hyp, depth + 1)
                       for w, b in ((v.args[1], True), (v.args[2], False)))
        if v in self.it.versions:
            e, old = self.it.versions[v]
            if all(self.has_key(a, i) for a in self.info_alts(e.data["info"])):
                return True
            return self.evaluated(i, old, facts, need, hyp, depth + 1)
        if v.op == "phi" and v in self.flow.phi:
            a, b, l = self.flow.phi[v]
            h = hyp | {key}
            if i.op == "phi" and i in self.flow.phi and self.flow.phi[i][2] is l:
                ia, ib, _ = self.flow.phi[i]
            else:
                ia, ib = i, i
                if self.inside(i, l):
                    return False
            return (self.evaluated(ia, a, facts, need, h, depth + 1)
                    and (b is None or self.evaluated(ib, b, {}, need, h, depth + 1)))
        return False

    def inside(self, i, l):
        """Is the index created inside loop l?"""
        for s in T.subterms(i):
            if s in self.it.added:
                e = self.it.added[s][1]
                if l.id in e.loops:
                    return True
        return False

    def has_key(self, info, i):
        """Does the evaluation request contain index i (or all of i)?"""
        if info.op == "dmap":
            parts = [info]
        elif info.op == "dict":
            parts = info.args
        else:
            return False
        for p in parts:
            if p.op == "kv" and p.args[0] is i:
                return True
            if p.op == "dmap":
                src, var, key, val, cond = p.args
                if cond is not T.TRUE:
                    continue
                if key is var and (i is src or i is elem(src) or (i.op in ("item", "elem") and i.args[0] is src)):
                    return True
                if key is var and i.op == "call" and i.args[0] == "argminkey":
                    for s in T.subterms(i):
                        if s.op == "call" and s.args[0] in ("fvals", "fvecs") and s.args[1][0] is src:
                            return True
        return False


# ------------------------------------------------------------------- in bounds
class InBounds:
    """Is a point inside the user's bounds?"""

    def __init__(self, flow, lower, upper, axioms, sampler_ok, region_ok):
        self.flow = flow
        self.it = flow.it
        self.lower, self.upper = lower, upper
        self.axioms = axioms
        self.sampler_ok = sampler_ok
        self.region_ok = region_ok
        self.comp = {e.data["result"]: e for e in self.it.events if e.kind == "component"}
        self.draws = {e.data["result"]: e for e in self.it.events if e.kind == "rng"}

    def bounds_term_ok(self, b):
        """Is b the user's bounds object?"""
        if b.op == "rec":
            f = dict((k, v) for k, v in b.args[1])
            return f.get("lower") is self.lower and f.get("upper") is self.upper
        return False

    def uniform_range(self, e):
        a, kw = list(e.data["args"]), e.data["kwargs"]
        lo = kw.get("low", a[0] if a else None)
        hi = kw.get("high", a[1] if len(a) > 1 else None)
        return (lo, hi) if lo is not None and hi is not None else (None, None)

    def in_cube(self, t):
        """A corner of the region's cube, which lies inside the bounds (region lemma)."""
        return (self.region_ok and t.op == "call" and t.args[0] in ("region.cube_lower", "region.cube_upper")
                and self.bounds_term_ok(t.args[1][2]))


    def region_bounds(self, v, st=None):
        from .values import Rec
        if isinstance(v, Rec) and "bounds" in v.fields:
            return self.bounds_term_ok(self.it.tm(v.fields["bounds"], st))
        return False

    def ok(self, t, hyp=frozenset(), why=None, facts=None):
        why = why if why is not None else []
        facts = facts or {}
        if t in self.axioms or t in hyp or t is T.NONE:  # None: no point at all
            return True
        op = t.op
        if op == "ite":
            r = T.decide(t.args[0], facts)
            for v, x in ((True, t.args[1]), (False, t.args[2])):
                if r is not None and r is not v:
                    continue
                f = with_fact(facts, t.args[0], v)
                if contradictory(f):
                    continue
                if all(any(bb is b and T.decide(c, f) is w for c, w, bb in bounds_vacuous(self.lower, self.upper))
                       for b in (self.lower, self.upper)):
                    continue  # there are no bounds on this branch
                if not self.ok(x, hyp, why, f):
                    return False
            return True
        if op == "phi" and t in self.flow.phi:
            a, b, _ = self.flow.phi[t]
            h = hyp | {t}
            return self.ok(a, h, why) and (b is None or self.ok(b, h, why))
        if op in ("item", "elem"):
            src = t.args[0]
            if src.op == "phi" and src in self.flow.phi:
                return self.ok(src, hyp, why, facts)
            return self.ok(src, hyp, why, facts)
        if op in ("list", "tuple", "concatlist"):
            return all(self.ok(x, hyp, why, facts) for x in t.args)
        if op == "splice":
            return self.ok(t.args[0], hyp, why, facts)
        if op == "map":
            return self.ok(t.args[2], hyp, why, facts)
        if op == "call":
            name, args = t.args[0], t.args[1]
            if name == "xs" or name == "xsall" or name == "xsraw":
                return True
            if name in ("numpy.empty", "numpy.zeros") and args and (args[0] is T.ZERO or (
                    args[0].op in ("list", "tuple") and args[0].args and args[0].args[0] is T.ZERO)):
                return True  # no rows
            if name == "region.map_from_unit":
                if self.region_ok and self.bounds_term_ok(args[3]):
                    return True
                why.append("mapped from the unit region without clipping to the bounds")
                return False
            if name in ("numpy.atleast_2d", "numpy.atleast_1d", "numpy.array", "numpy.vstack", "vstack",
                        "numpy.row_stack", "numpy.concatenate", "numpy.ravel", "numpy.reshape", "numpy.squeeze",
                        "numpy.asarray", "numpy.copy", "list", "numpy.unique", "numpy.repeat"):
                return (self.ok(args[0], hyp, why, facts) if name != "vstack"
                        else all(self.ok(a, hyp, why, facts) for a in args))
        if t in self.draws and self.draws[t].data["method"] == "uniform":
            lo, hi = self.uniform_range(self.draws[t])
            if lo is not None and self.in_cube(lo) and self.in_cube(hi):
                return True
            why.append("drawn uniformly from a range that is not the region inside the bounds")
            return False
        if t in self.comp:
            e = self.comp[t]
            if e.data["label"] == "sampler" and self.sampler_ok:
                r = e.data["kwargs"].get("trustregion") or (e.data["args"][0] if e.data["args"] else None)
                if self.region_bounds(r):
                    return True
                why.append("sampled in a region that does not carry the bounds")
                return False
        if op in ("min", "max", "sum"):
            if self.by_order(t, hyp):
                return True
        why.append("not shown to be inside the bounds: " + T.show(t)[:200])
        return False

    def by_order(self, t, hyp):
        """Clipping and other order arguments."""
        from .order import Order
        lo, up = self.lower, self.upper
        o = Order(ge=[(up, lo)], le=[(lo, up)], vacuous=bounds_vacuous(lo, up),
                  member=lambda x, b, u: x is not t and x.op not in ("min", "max", "sum", "ite") and self.ok(x, hyp, []))
        return o.ge(t, lo) and o.le(t, up)


def bounds_vacuous(lo, up):
    none = [(T.cmp("==", b, T.NONE), True, b) for b in (lo, up)]
    h = T.truth(T.call("bounds.has_any", lo, up))
    return none + [(h, False, b) for b in (lo, up)]
