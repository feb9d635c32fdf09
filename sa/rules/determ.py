"""C07: runs are reproducible."""
from .. import effects, lemma, terms as T
from ..report import ev_where, show, where
from ..values import Val

S = T.sym


def seeds_of(t):
    """[(seed term)] of every generator construction inside a receiver term; None if it is something else."""
    out = []
    todo = [t]
    while todo:
        u = todo.pop()
        if u.op == "ite":
            todo += [u.args[1], u.args[2]]
        elif u.op == "call" and u.args[0] == "rng":
            out.append(u.args[1][0] if u.args[1] else T.NONE)
        elif u.op == "call" and str(u.args[0]).startswith("scipy.stats.qmc."):
            s = seed_kw(u)
            out.append(s if s is not None else T.NONE)
        elif u.op in ("sym", "attr", "item", "phi", "elem"):
            out.append(u)
        else:
            out.append(u)
    return out


def seed_kw(u):
    for s in u.args[1:]:
        if isinstance(s, tuple):
            for p in s:
                if isinstance(p, T.Term) and p.op == "kw" and p.args[0] in ("seed", "rng", "random_state"):
                    return p.args[1]
                if isinstance(p, tuple) and len(p) == 2 and p[0] in ("seed", "rng", "random_state"):
                    return p[1]
    return None


def unseeded(t):
    return any(s is T.NONE for s in seeds_of(t))


def rng_arg(e):
    """The generator that a component gets."""
    for k, v in e.data["kwargs"].items():
        if isinstance(v, Val) and (k == "rng" or (v.term.op == "call" and v.term.args[0] == "rng")):
            return v
    return None


def check_C07(ctx, rep):
    rep.rule("sources", "no function uses the global random state, time, process or environment")
    rep.rule("state", "no object outlives a run: globals, class attributes, defaults and function attributes are never changed")
    rep.rule("seeded", "every generator is constructed inside a call from an explicit seed")
    rep.rule("draws", "components draw from the generator they are given")
    rep.rule("streams", "the two generators of a run derive from the seed; sampling and acceptance share one, noise simulation has the other")
    rep.assume("batch evaluator and scipy/numpy routines are deterministic given their arguments")
    n_ref = 0
    changers = effects.changed_parameters(list(ctx.program()))
    for m in ctx.program():
        refs = effects.references(m)
        n_ref += len(refs)
        bad = {}
        for fn, node, name in refs:
            if effects.is_source(name):
                bad.setdefault((fn, effects.canonical(name)), node)
            if effects.canonical(name).split(".")[-1] in ("default_rng", "RandomState") and fn == "<module>":
                rep.ob(False, "seeded", where(ctx, m.name, fn), "generator constructed once for all runs", name)
        for (fn, name), node in sorted(bad.items(), key=str):
            rep.ob(False, "sources", where(ctx, m.name, fn), f"uses {name}")
        if not bad:
            rep.ob(True, "sources", ctx.project.rel(m.name), f"{len(refs)} external references are deterministic")
        hs = effects.hidden_state(m, changers)
        for fn, node, what in hs:
            rep.ob(False, "state", where(ctx, m.name, fn), what)
        if not hs:
            rep.ob(True, "state", ctx.project.rel(m.name), "no write to objects that outlive a call")
    n_draw = 0
    for f, it, st, r in ctx.sweep():
        w = where(ctx, f.module, f.name)
        for e in it.events:
            if e.kind == "newrng":
                rep.ob(e.data["seed"] is not T.NONE, "seeded", ev_where(ctx, e), f"generator constructed in a call of {f.name} has a seed")
            elif e.kind == "rng":
                n_draw += 1
                rep.ob(not unseeded(e.data["rng"]), "seeded", ev_where(ctx, e), f"draw in a call of {f.name} has a seed", show(e.data["rng"]))
            elif e.kind == "impure" and effects.is_source(e.data["name"]):
                rep.ob(False, "sources", ev_where(ctx, e), f"{e.data['name']} in a call of {f.name}")
            elif e.kind == "globalwrite":
                rep.ob(False, "state", ev_where(ctx, e), f"assigns the global {e.data['name']}")
        if "rng" in lemma.params(f):
            draws = [e for e in it.events if e.kind == "rng"]
            new = [e for e in it.events if e.kind == "newrng"]
            rep.ob(all(e.data["rng"] is S("rng") for e in draws) and not new, "draws", w,
                   f"all {len(draws)} draws come from the generator passed in",
                   "; ".join(show(e.data["rng"]) for e in draws if e.data["rng"] is not S("rng")) or ("constructs another generator" if new else ""))
    m = ctx.abstract()
    roles = [e for e in m.it.events if e.kind == "role"]
    used = {}
    for e in roles:
        v = rng_arg(e)
        if v is not None:
            used.setdefault(e.data["role"], []).append((e, m.it.tm(v, m.st)))
    for role in ("sample", "accept", "rhonoise"):
        n = [e for e in roles if e.data["role"] == role]
        rep.ob(len(used.get(role, [])) == len(n) and n, "streams", "tranquilo", f"every {role} call gets a generator", f"{len(used.get(role, []))} of {len(n)}")
    a = [t for role, l in used.items() if role != "rhonoise" for e, t in l]
    b = [t for e, t in used.get("rhonoise", [])]
    for role, l in sorted(used.items()):
        for k, (e, t) in enumerate(l):
            s = seeds_of(t)
            ok = t.op in ("call", "ite") and all(any(u is S("seed") for u in T.subterms(x)) for x in s)
            rep.ob(ok, "streams", ev_where(ctx, e), f"generator of {role} call {k} derives from the seed", show(t))
    rep.ob(len(set(a)) == 1, "streams", "tranquilo", "all points are sampled with one generator", "; ".join(sorted({show(x) for x in a})))
    for x in set(a):
        for y in set(b):
            ds = [T.sub(p, q) for p in seeds_of(x) for q in seeds_of(y)]
            rep.ob(all(T.is_num(d) and d is not T.ZERO for d in ds), "streams", "tranquilo", "sampling and simulation have different seeds", f"{show(x)} / {show(y)}")
    own = [e for e in m.it.events if e.kind == "rng"]
    for e in own:
        rep.ob(all(e.data["rng"] is not y for y in b), "streams", ev_where(ctx, e), "only the simulation draws from its generator", show(e.data["rng"]))
    for u in ctx.unanalysed:
        rep.note("not covered: " + u)
    rep.note(f"{n_ref} external references, {n_draw} draws in {len(ctx.sweep())} functions")
