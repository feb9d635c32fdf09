"""C16: arguments and options reach the component they configure."""
import ast

from .. import lemma, models, terms as T
from ..interp import Interp
from ..project import Broken
from ..values import DictS, Func, Rec, Ref, Val
from .common import canon, components_of, magnitudes, same

# builder -> parameters that select a component, parameter of the options, other arguments
GETTERS = {
    "get_sampler": (["sampler"], "user_options", {}),
    "get_sample_filter": (["sample_filter"], "user_options", {}),
    "get_subsolver": (["sphere_solver", "cube_solver"], "user_options", {"retry_with_fallback": T.TRUE}),
    "get_fitter": (["fitter"], "fitter_options", {"model_type": T.const("linear"), "residualize": T.FALSE,
                                                  "infinity_handling": T.const("relative")}),
    "get_variance_estimator": (["fitter"], "user_options", {}),
    "get_acceptance_decider": (["acceptance_decider"], "acceptance_options", {}),
}
MANDATORY = {
    "get_sampler": {"sampler": ["trustregion", "n_points", "existing_xs", "rng"]},
    "get_subsolver": {"sphere_solver": ["model", "x_candidate"],
                      "cube_solver": ["model", "x_candidate", "lower_bounds", "upper_bounds"]},
    "get_fitter": {"fitter": ["x", "y", "model_type"]},
}


class Call:
    """One run of a builder with the components it returned and what they pass on."""

    def __init__(self, ctx, getter, select, options, extra):
        self.ctx, self.got, self.made = ctx, [], []
        it = self.it = Interp(ctx.project, {})
        it.components, it.added, it.versions = [], {}, {}
        self.f = it.find_func(getter)
        self.st = lemma.start(it, self.f.module)
        gc = it.find_func("get_component").qual

        def record(interp, st, f, args, kwargs, node):
            b = interp.bind(f, args, kwargs, st, node)
            hook = interp.hooks.pop(gc)
            try:
                r = interp.call(f, args, kwargs, st, node)
            finally:
                interp.hooks[gc] = hook
            self.made.append((interp.tm(b["component_name"], st), b["name_or_func"], r))
            return r

        it.hooks[gc] = record
        args = {k: Val(v) for k, v in extra.items()}
        args.update({k: v(it, self.st) for k, v in select.items()})
        if options is not None:
            args[options[0]] = options[1](it, self.st)
        ps = lemma.params(self.f)
        for k in list(args):
            if k not in ps:
                if k in extra:
                    del args[k]
                else:
                    raise Broken(f"{getter} lost its parameter {k}")
        for k in ps:
            if k not in args and k not in defaulted(self.f):
                args[k] = Val(T.sym(k))
        if options is None and getter_options(getter) in ps:
            args[getter_options(getter)] = Val(T.NONE)
        self.raised = None
        self.result = it.call(self.f, [], args, self.st, self.f.node)
        ctx.count(it)

    def rejects(self):
        g = T.FALSE
        for e in self.it.events:
            if e.kind == "raise":
                g = T.tor(g, e.guard)
        return g is T.TRUE

    def may_raise(self):
        return [e for e in self.it.events if e.kind == "raise" and e.guard is not T.FALSE]

    def apply(self, comp, target, npos, names):
        """Call component `comp`; the arguments that `target` receives."""
        got = []

        def hook(interp, st, f, args, kwargs, node):
            got.append((list(args), dict(kwargs)))
            return Val(T.sym("RESULT"))

        it = self.it
        it.hooks[target.qual] = hook
        r = it.call(comp, [Val(T.sym(f"arg{i}")) for i in range(npos)], {k: Val(T.sym("run." + k)) for k in names}, self.st, self.f.node)
        self.ctx.count(it)
        if len(got) != 1:
            return (None, []), None
        b = bind(target, *got[0])
        return b, it.tm(r, self.st)


def getter_options(getter):
    return GETTERS[getter][1]


def defaulted(f):
    a = f.node.args
    out = [x.arg for x in a.args[len(a.args) - len(a.defaults):]] if a.defaults else []
    return out + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]


def bind(f, args, kwargs):
    a = f.node.args
    names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
    allowed = names + [x.arg for x in a.kwonlyargs]
    out, bad = {}, []
    for n, v in zip(names, args):
        out[n] = v
    if len(args) > len(names) and not a.vararg:
        bad.append("too many positional arguments")
    for k, v in kwargs.items():
        if k in out:
            bad.append(f"{k} given twice")
        elif k not in allowed and not a.kwarg:
            bad.append(f"unexpected argument {k}")
        out[k] = v
    for n in allowed:
        if n not in out and n not in defaulted(f):
            bad.append(f"argument {n} not given")
    return out, bad


def const(v):
    return lambda it, st: Val(T.const(v))


def dict_of(keys, prefix="user."):
    return lambda it, st: it.alloc(st, DictS(tuple(("kv", T.const(k), Val(T.sym(prefix + k))) for k in keys)))


def bundle_of(cls, prefix="user."):
    def make(it, st):
        return Rec(cls, {f[0]: Val(T.sym(prefix + f[0])) for f in cls.fields})
    return make


def runtime(ctx, labels):
    """How the optimizer calls a component: {label: (number of positional arguments, keyword names)}."""
    out = {}
    for m in ctx.mains():
        for e in m.it.events:
            if e.kind == "component":
                out.setdefault(e.data["label"], []).append((len(e.data["args"]), tuple(e.data["kwargs"])))
            elif e.kind == "accept":
                out.setdefault(labels["get_acceptance_decider"], []).append((len(e.data["args"]), tuple(e.data["kwargs"])))
    return {k: sorted(set(v)) for k, v in out.items()}


def leaves(t):
    if t.op == "ite":
        return leaves(t.args[1]) | leaves(t.args[2])
    return {t}


def is_user_value(t, u, default):
    """u itself, or u converted to the type of the default."""
    ty = None if default is T.NONE or not T.is_const(default) else type(T.cval(default)).__name__
    ok = {u, T.call("apply", T.call("type", default), T.mk("args", u), T.mk("kwargs"))}
    if ty == "bool":
        ok |= {T.truth(u), T.call("bool", u)}
    elif ty is not None:
        ok.add(T.call(ty, u))
    return leaves(t) <= ok


def option_defaults(it, st, comp):
    d = it.resolve(comp.default_options, st)
    return d if isinstance(d, Rec) else None


def check_C16(ctx, rep):
    rep.rule("builtin", "a built-in component receives the runtime arguments and options it has parameters for")
    rep.rule("user", "user-supplied functions are used as they are when they take the mandatory arguments")
    rep.rule("reject", "unknown names, unknown options and missing mandatory arguments are rejected")
    rep.rule("settings", "the settings of the optimizer are those of the user or the documented defaults")
    rep.rule("bundle", "a bundle of options carries the values of the user and otherwise the defaults")
    rep.rule("invalid", "exactly the invalid settings are rejected, before the criterion is evaluated")
    rep.rule("used", "every argument and option is consulted")
    n = 0
    labels = {}
    comps = {}
    for g, (sel, opt, extra) in GETTERS.items():
        cs = components_of(ctx, g)
        comps[g] = cs
        labels[g] = cs[0].label
    run = runtime(ctx, labels)
    for g, (sel, opt, extra) in GETTERS.items():
        where = ctx.project.rel(Interp(ctx.project, {}).find_func(g).module) + ":" + g
        for c in comps[g]:
            which = [s for s in sel if T.mentions(sel_term(c), T.sym(s))] if hasattr(T, "mentions") else [s for s in sel if T.sym(s) in set(T.subterms(sel_term(c)))]
            names = list(c.registry) if which else [T.cval(sel_term(c))]
            calls = run.get(c.label)
            if not calls:
                rep.ob(False, "builtin", where, f"{c.label}: used by the optimizer", "no call of this component was found")
                continue
            for name in names:
                n += 1
                builtin(ctx, rep, where, g, c, which, sel, opt, extra, name, calls)
            if which:
                user_function(ctx, rep, where, g, c, which, sel, opt, extra, calls)
    others(ctx, rep)
    bundles(ctx, rep)
    settings(ctx, rep)
    consulted(ctx, rep)


def sel_term(c):
    return c.selected.term if isinstance(c.selected, Val) else T.sym("?")


def builtin(ctx, rep, where, g, c, which, sel, opt, extra, name, calls):
    target = c.registry[name]
    if not isinstance(target, Func):
        raise Broken(f"{g}: built-in {name!r} is not a function of the package")
    sig = lemma.params(target)
    others = {s: const(first_name(ctx, g, s)) for s in sel if s not in which}
    select = {**others, **{s: const(name) for s in which}}
    base = Call(ctx, g, select, None, extra)
    dflt = option_defaults(base.it, base.st, c)
    fields = list(dflt.fields) if dflt is not None else []
    variants = [("no options", None, [])]
    if fields:
        variants.append(("all options", (opt, dict_of(fields)), fields))
        variants.append(("a bundle of options", (opt, bundle_of(dflt.cls)), fields))
        variants += [(f"option {k}", (opt, dict_of([k])), [k]) for k in fields if k in sig]
    for text, o, given in variants:
        call = Call(ctx, g, select, o, extra)
        ok, why = True, ""
        if call.may_raise():
            ok, why = False, "an exception can be raised for a valid selection"
        made = [r for lab, nm, r in call.made if T.is_const(lab) and T.cval(lab) == c.label]
        if len(made) != 1:
            ok, why = False, "component not built exactly once"
        fixed = not which
        for npos, kws in (calls if ok else []):
            (got, bad), res = call.apply(made[0], target, npos, kws)
            why = check_call(call, target, sig, got, bad, res, npos, kws, dflt, [] if fixed else given)
            if why:
                ok = False
                break
        rep.ob(ok, "builtin", where, f"{c.label} {name}: {text}", why)


def check_call(call, target, sig, got, bad, res, npos, kws, dflt, given):
    if got is None:
        return "the selected function is not called exactly once"
    if bad:
        return bad[0]
    if res is not T.sym("RESULT"):
        return "the result of the component is changed: " + T.show(res)[:100]
    it, st = call.it, call.st
    for i, p in enumerate(sig[:npos]):
        if it.tm(got[p], st) is not T.sym(f"arg{i}"):
            return f"positional argument {i} does not reach {p}"
    for k in kws:
        if k in sig and (k not in got or it.tm(got[k], st) is not T.sym("run." + k)):
            return f"argument {k} does not arrive unchanged"
    for k, d in (dflt.fields.items() if dflt is not None else []):
        if k not in sig or k in kws or k in sig[:npos]:
            continue
        t = it.tm(got[k], st) if k in got else None
        dt = it.tm(d, st)
        if t is None:
            return f"option {k} is not passed on"
        if k in given:
            if not is_user_value(t, T.sym("user." + k), dt):
                return f"option {k} arrives as {T.show(t)[:100]}"
        elif t is not dt:
            return f"option {k} arrives as {T.show(t)[:100]} instead of the default {T.show(dt)[:60]}"
    for k in got:
        if k not in kws and k not in (dflt.fields if dflt is not None else {}) and k not in sig[:npos]:
            return f"argument {k} is not given by the optimizer"
    return ""


def first_name(ctx, g, s):
    for c in components_of(ctx, g):
        if T.sym(s) in set(T.subterms(sel_term(c))):
            return list(c.registry)[0]
    raise Broken(f"{g}: {s} selects nothing")


# ------------------------------------------------------- user functions, rejection
def user_func(params, name="user_component"):
    node = ast.parse(f"def {name}({', '.join(params)}):\n    return None\n").body[0]
    return Func(name, node, "oracle", (), None, None, f"user.{name}")


def user_function(ctx, rep, where, g, c, which, sel, opt, extra, calls):
    need = MANDATORY.get(g, {}).get(which[0], [])
    rest = {s: const(first_name(ctx, g, s)) for s in sel if s not in which}

    def make(f, o=None):
        return Call(ctx, g, {**rest, **{s: (lambda it, st: f) for s in which}}, o, extra)

    kws = sorted({k for _, ks in calls for k in ks})
    npos = max(n for n, _ in calls)
    probe = make(user_func(need or kws))
    dflt = option_defaults(probe.it, probe.st, c)
    fields = list(dflt.fields) if dflt is not None else []
    for text, params in (("with the mandatory arguments", list(dict.fromkeys(need + kws))),
                         ("with the mandatory arguments only", need or kws),
                         ("with all arguments and options", list(dict.fromkeys(need + kws + fields)))):
        f = user_func(params)
        call = make(f, (opt, dict_of(fields)) if fields else None)
        why = "an exception can be raised" if call.may_raise() else ""
        made = [r for lab, nm, r in call.made if T.is_const(lab) and T.cval(lab) == c.label]
        if not why and len(made) != 1:
            why = "component not built exactly once"
        if not why and npos == 0:
            (got, bad), res = call.apply(made[0], f, npos, kws)
            why = check_call(call, f, params, got, bad, res, npos, kws, dflt, fields)
        rep.ob(not why, "user", where, f"{c.label} given by a function {text}", why)
    for a in need:
        f = user_func([k for k in dict.fromkeys(need + kws) if k != a])
        rep.ob(make(f).rejects(), "reject", where, f"{c.label} given by a function without argument {a}", "no exception is raised for it")
    bad = Call(ctx, g, {**rest, **{s: const("no such component") for s in which}}, None, extra)
    rep.ob(bad.rejects(), "reject", where, f"unknown name of {c.label}", "no exception is raised for it")
    num = Call(ctx, g, {**rest, **{s: const(1) for s in which}}, None, extra)
    rep.ob(num.rejects(), "reject", where, f"{c.label} that is neither a name nor a function", "no exception is raised for it")
    if fields:
        good = {**rest, **{s: const(first_name(ctx, g, s)) for s in which}}
        for text, keys in (("alone", ["no_such_option"]), ("among others", fields[:1] + ["no_such_option"])):
            call = Call(ctx, g, good, (opt, dict_of(keys)), extra)
            rep.ob(call.rejects(), "reject", where, f"unknown option of {c.label}, {text}", "no exception is raised for it")
        wrong = Interp(ctx.project, {}).find_class("StopOptions")
        call = Call(ctx, g, good, (opt, bundle_of(wrong)), extra)
        rep.ob(call.rejects(), "reject", where, f"options of {c.label} in a bundle of another kind", "no exception is raised for it")


def others(ctx, rep):
    """Components with a registry of their own."""
    for g, p, fn in (("get_aggregator", "aggregator", False), ("get_infinity_handler", "infinity_handler", True), ("process_batch_evaluator", "batch_evaluator", True)):
        it = Interp(ctx.project, {})
        f = it.find_func(g)
        where = ctx.project.rel(f.module) + ":" + g
        if p not in lemma.params(f):
            raise Broken(f"{g} lost its parameter {p}")

        def run(v):
            i = Interp(ctx.project, {})
            st = lemma.start(i, f.module)
            r = i.call(i.find_func(g), [], {p: v}, st, f.node)
            ctx.count(i)
            g_ = T.FALSE
            for e in i.events:
                if e.kind == "raise":
                    g_ = T.tor(g_, e.guard)
            for q in i.issues:
                if q[0] == "key" and q[4].endswith("is missing"):
                    g_ = T.tor(g_, q[5])  # KeyError
            return i, st, r, g_
        rep.ob(run(Val(T.const("no such component")))[3] is T.TRUE, "reject", where, f"unknown name of {p}", "no exception is raised for it")
        if fn:
            u = user_func(["x"])
            i, st, r, ex = run(u)
            rep.ob(ex is T.FALSE and i.resolve(r, st) is u, "user", where, f"{p} given by a function", f"{i.resolve(r, st)!r}"[:150])
            rep.ob(run(Val(T.const(1)))[3] is T.TRUE, "reject", where, f"{p} that is neither a name nor a function", "no exception is raised for it")


# ------------------------------------------------------------------- bundles
MAIN_BUNDLES = {"radius_options": "RadiusOptions", "stagnation_options": "StagnationOptions", "noise_adaptation_options": "NoiseAdaptationOptions"}


def bundles(ctx, rep):
    it = Interp(ctx.project, {})
    f = it.find_func("update_option_bundle")
    where = ctx.project.rel(f.module) + ":update_option_bundle"
    classes = [ci for ci in all_option_classes(ctx)]
    for ci in classes:
        fields = [x[0] for x in ci.fields]

        def run(user):
            i = Interp(ctx.project, {})
            st = lemma.start(i, f.module)
            fs = {}
            for x in ci.fields:
                fs[x[0]] = Val(T.sym("default." + x[0]))
            base = plain(i, ci, st)
            for k, v in base.items():
                fs[k] = v
            r = i.call(i.find_func("update_option_bundle"), [Rec(ci, fs), user(i, st)], {}, st, f.node)
            ctx.count(i)
            g = T.FALSE
            for e in i.events:
                if e.kind == "raise":
                    g = T.tor(g, e.guard)
            return i, st, i.resolve(r, st), g, {k: i.tm(v, st) for k, v in fs.items()}
        cases = [("no options", lambda i, st: Val(T.NONE), []), ("all options", dict_of(fields), fields), ("a bundle", bundle_of(ci), fields)]
        cases += [(f"option {k}", dict_of([k]), [k]) for k in fields]
        for text, user, given in cases:
            i, st, r, g, d = run(user)
            why = ""
            if g is not T.FALSE:
                why = "an exception can be raised for known options"
            elif not isinstance(r, Rec) or r.cls is not ci:
                why = f"the result is not a {ci.name}"
            else:
                for k in fields:
                    t = i.tm(r.fields[k], st)
                    if k in given and not is_user_value(canon(i, t), T.sym("user." + k), d[k]):
                        why = f"{k} is {T.show(t)[:100]}"
                    elif k not in given and t is not d[k]:
                        why = f"{k} is {T.show(t)[:100]} instead of the default"
            rep.ob(not why, "bundle", where, f"{ci.name}: {text}", why)
        rep.ob(run(dict_of(["no_such_option"]))[3] is T.TRUE, "reject", where, f"{ci.name}: unknown option", "no exception is raised for it")
    for ci in classes:
        i = Interp(ctx.project, {})
        st = lemma.start(i, f.module)
        for k, v in plain(i, ci, st).items():
            t = i.tm(v, st)
            ann = annotation(ci, k)
            if t is T.NONE or ann not in ("int", "float", "bool", "str"):
                continue
            ok = T.is_const(t) and type(T.cval(t)).__name__ == ann or not T.is_const(t)
            rep.ob(ok, "bundle", f"{ctx.project.rel(ci.module)}:{ci.name}", f"the default of {k} has its declared type, so that values of the user keep theirs", f"declared {ann}, default {T.show(t)}")


def all_option_classes(ctx):
    it = Interp(ctx.project, {})
    out = []
    for n in ("RadiusOptions", "StagnationOptions", "NoiseAdaptationOptions", "SamplerOptions", "FilterOptions", "FitterOptions",
              "SubsolverOptions", "VarianceEstimatorOptions", "AcceptanceOptions"):
        out.append(it.find_class(n))
    return out


def plain(i, ci, st):
    """Fields of the class with their default values."""
    need = {x.target.id for x in ci.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is None}
    r = i.construct(ci, [], {k: Val(T.sym("default." + k)) for k in need}, st, None)
    return {k: v for k, v in r.fields.items() if k not in need}


def annotation(ci, k):
    for x in ci.node.body:
        if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == k and isinstance(x.annotation, ast.Name):
            return x.annotation.id
    return None


# ------------------------------------------------------------------ settings
CONV = {"disable": "disable_convergence", "ftol_abs": "convergence_absolute_criterion_tolerance", "gtol_abs": "convergence_absolute_gradient_tolerance",
        "xtol_abs": "convergence_absolute_params_tolerance", "ftol_rel": "convergence_relative_criterion_tolerance",
        "gtol_rel": "convergence_relative_gradient_tolerance", "xtol_rel": "convergence_relative_params_tolerance",
        "min_radius": "convergence_min_trust_region_radius"}
STOP = {"max_iter": "stopping_max_iterations", "max_eval": "stopping_max_criterion_evaluations", "max_time": "stopping_max_time"}
ROLE_ARGS = {
    "sample": {"sampler": "sampler", "user_options": "sampler_options"},
    "solve": {"cube_solver": "cube_subsolver", "sphere_solver": "sphere_subsolver", "retry_with_fallback": "retry_subproblem_with_fallback", "user_options": "subsolver_options"},
    "filter": {"sample_filter": "=sample_filter", "user_options": "sample_filter_options"},
    "fit": {"fitter": "=fitter", "fitter_options": "model_fitter_options", "model_type": "=model_type", "infinity_handling": "infinity_handler", "residualize": "=residualize"},
    "aggregate": {"aggregator": "=aggregator"},
    "variance": {"fitter": "variance_estimator", "user_options": "variance_estimator_options"},
    "accept": {"acceptance_decider": "=acceptance_decider", "acceptance_options": "acceptance_decider_options"},
}


def converted(t, u):
    """The value of the user, at most converted to a number or truth value."""
    return leaves(t) <= {u, T.call("int", u), T.call("float", u), T.truth(u), T.call("bool", u)}


def settings(ctx, rep):
    it = Interp(ctx.project, models.loop_hooks(ctx.project))
    it.components, it.added, it.versions = [], {}, {}
    pa = it.find_func("process_arguments")
    where = ctx.project.rel(pa.module) + ":process_arguments"
    st = lemma.start(it, pa.module)
    facts = [T.cmp("==", T.sym(p), T.NONE) for p in ("seed", "n_cores", "x", "noisy", "functype")]
    args = models.symbolic_args(pa)
    r = it.resolve(it.call(pa, [], args, st, pa.node), st)
    ctx.count(it)
    if not isinstance(r, Ref) or it.hobj(st, r).known() is None:
        raise Broken("process_arguments does not return a dict of settings")
    out = it.hobj(st, r).known()
    for k in set(CONV.values()) | set(STOP.values()) | {v for d in ROLE_ARGS.values() for v in d.values() if v[0] != "="}:
        if k not in args:
            raise Broken(f"process_arguments lost its parameter {k}")
    noise = it.resolve(out.get("noise_adaptation_options"), st) if "noise_adaptation_options" in out else None
    if not isinstance(noise, Rec):
        raise Broken("the noise adaptation options are not a bundle")
    a = {p: T.sym(p) for p in ("functype", "x", "noisy", "n_cores", "batch_size", "sample_size", "model_type", "search_radius_factor", "n_evals_per_point",
                               "n_evals_at_start", "model_fitter", "sample_filter", "acceptance_decider", "residualize")}
    a["min_n_evals"] = it.tm(noise.fields["min_n_evals"], st)
    w = reference(ctx, a)
    raised = T.FALSE
    for e in it.events:
        if e.kind == "raise":
            raised = T.tor(raised, e.guard)
    bad = w["invalid"]

    def got(t):
        return magnitudes(canon(it, t))

    def want(k):
        return magnitudes(w[k])

    # whether the generator of the library or a function of the package refuses seeds that are no integers does not matter
    raised = T.subst(raised, {u: T.const(u.args[1] == "int") for u in T.subterms(raised)
                              if u.op == "isinst" and T.sym("seed") in set(T.subterms(u.args[0]))})
    raised = T.subst(raised, {T.cmp("==", T.sym("seed"), T.NONE): T.FALSE})
    same(rep, "invalid", where, "exactly the invalid settings are rejected", canon(it, raised), bad, limit=60000)
    for k in ("noisy", "batch_size", "target_sample_size", "search_radius_factor", "n_evals_per_point", "n_evals_at_start"):
        if k in out:
            same(rep, "settings", where, k, got(it.tm(out[k], st)), want(k), limit=60000)
        else:
            rep.ob(False, "settings", where, k, "not among the settings")
    for key, fields in (("conv_options", CONV), ("stop_options", STOP)):
        v = it.resolve(out[key], st) if key in out else None
        for f, p in fields.items():
            t = it.tm(v.fields[f], st) if isinstance(v, Rec) and f in v.fields else T.NONE
            rep.ob(converted(t, T.sym(p)), "settings", where, f"{key}.{f} is {p}", T.show(t)[:150])
    for key, cls in MAIN_BUNDLES.items():
        v = it.resolve(out[key], st) if key in out else None
        for f in (v.fields if isinstance(v, Rec) else {}):
            t = it.tm(v.fields[f], st)
            ok = t.op == "call" and t.args[0] == "option" and t.args[1][0] is T.sym(key) and T.cval(t.args[1][2]) == f
            rep.ob(ok, "settings", where, f"{key}.{f} is the option of the user", T.show(t)[:150])
            if ok and f in w:
                same(rep, "settings", where, f"default of {key}.{f}", got(t.args[1][3]), want(f), limit=60000)
        if not isinstance(v, Rec):
            rep.ob(False, "settings", where, key, "not among the settings")
    region = it.resolve(out.get("trustregion"), st) if "trustregion" in out else None
    rad = it.resolve(out.get("radius_options"), st)
    if isinstance(region, Rec) and isinstance(rad, Rec):
        rep.ob(it.tm(region.fields["radius"], st) is it.tm(rad.fields["initial_radius"], st), "settings", where, "the first trustregion has the initial radius", T.show(it.tm(region.fields["radius"], st))[:150])
    roles = {}
    for e in it.events:
        if e.kind == "getrole":
            roles.setdefault(e.data["role"], []).append(e.data["bound"])
    for role, params in ROLE_ARGS.items():
        b = roles.get(role, [])
        if len(b) != 1:
            rep.ob(False, "settings", where, f"{role}: built once", f"built {len(b)} times")
            continue
        for k, p in params.items():
            text = f"component {role}: {k}"
            if k not in b[0]:
                raise Broken(f"the builder of the component {role} lost its parameter {k}")
            if p[0] == "=":
                x, y = got(b[0][k]), want(p[1:])
                if role == "aggregate":  # only the supported kinds of problems
                    x, y = T.ite(w["unsupported"], T.ZERO, x), T.ite(w["unsupported"], T.ZERO, y)
                same(rep, "settings", where, text, x, y, limit=60000)
            else:
                rep.ob(b[0][k] is T.sym(p), "settings", where, text, T.show(b[0][k])[:150])
    wrap = [e for e in it.events if e.kind == "wrapcriterion"]
    if len(wrap) != 1:
        rep.ob(False, "settings", where, "the criterion is wrapped once", f"{len(wrap)} times")
    else:
        b = wrap[0].data["bound"]
        for k, p in (("batch_evaluator", "batch_evaluator"), ("n_cores", "n_cores")):
            t = b[k] if isinstance(b[k], T.Term) else it.tm(b[k], st)
            rep.ob(converted(t, T.sym(p)), "settings", where, f"evaluation of the criterion: {k}", T.show(t)[:150])


def reference(ctx, a):
    it = Interp(ctx.project, {})
    f = it.find_func("settings", "oracle")
    st = lemma.start(it, "oracle")
    r = it.resolve(it.call(f, [], {k: Val(v) for k, v in a.items()}, st, f.node), st)
    if it.issues:
        raise Broken(f"reference: {it.issues[0]}")
    return {k: canon(it, it.tm(v, st)) for k, v in it.hobj(st, r).known().items()}


# ---------------------------------------------------------------- unused options
def consulted(ctx, rep):
    """Every argument of the optimizer and every option is read by something."""
    m = ctx.abstract()
    it = m.it
    pa = it.find_func("process_arguments")
    where = ctx.project.rel(pa.module) + ":process_arguments"
    terms = set()
    recs = {"ConvOptions", "StopOptions", *MAIN_BUNDLES.values()}

    def walk(t):
        todo = [t]
        while todo:
            u = todo.pop()
            if u in terms:
                continue
            terms.add(u)
            if u.op == "rec" and u.args[0] in recs:
                continue  # a bundle handed over as a whole
            todo += [x for x in flat(u.args)]

    for e in it.events:
        walk(e.guard)
        for v in e.data.values():
            for t in value_terms(it, m, v):
                walk(t)
    for L in it.loops.values():
        for path, (a, h, b) in L.header.items():
            for t, s in ((a, L.head), (b, L.back)):
                for x in value_terms(it, m, t):
                    walk(x)
        for t in [L.test, L.iter] + [b[0] for b in L.breaks]:
            for x in value_terms(it, m, t):
                walk(x)
    for t in getattr(m, "flow", None).phi.values() if hasattr(m, "flow") else []:
        for x in t:
            if isinstance(x, T.Term):
                walk(x)
    for v in m.result_fields.values():
        for t in value_terms(it, m, v):
            walk(t)
    syms = {u for u in terms if u.op == "sym"}
    bundle = set(MAIN_BUNDLES)
    # bundles handed over as a whole to a function analysed on its own
    whole = {u.args[0] for u in terms if u.op == "rec" and u.args[0] in recs and u.args[0] in handed(it, m)}
    read = {n.attr for mod in ctx.program() for n in ast.walk(mod.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    for p in lemma.params(pa):
        if p in bundle or p in ("criterion",):
            continue
        rep.ob(T.sym(p) in syms, "used", where, f"argument {p} is consulted", "no value, condition or component depends on it")
    for p, cls in MAIN_BUNDLES.items():
        ci = it.find_class(cls)
        for f in ci.fields:
            ok = any(u.op == "call" and u.args[0] == "option" and T.cval(u.args[1][1]) == cls and T.cval(u.args[1][2]) == f[0] for u in terms)
            ok = ok or cls in whole and f[0] in read
            rep.ob(ok, "used", f"{ctx.project.rel(ci.module)}:{cls}", f"option {cls}.{f[0]} is consulted", "no value or condition depends on it")
    for g in GETTERS:
        cs = components_of(ctx, g)
        i = Interp(ctx.project, {})
        st = lemma.start(i, i.find_func(g).module)
        seen = {}
        for c in cs:
            d = option_defaults(i, st, c) if not isinstance(c.default_options, Rec) else c.default_options
            for k in (d.fields if d is not None else {}):
                hit = False
                for f in c.registry.values():
                    if isinstance(f, Func) and k in lemma.params(f):
                        hit = hit or any(isinstance(n, ast.Name) and n.id == k for n in ast.walk(f.node))
                seen.setdefault((d.cls, k), False)
                seen[(d.cls, k)] |= hit
        for (ci, k), hit in seen.items():
            rep.ob(hit, "used", f"{ctx.project.rel(ci.module)}:{ci.name}", f"option {ci.name}.{k} is consulted", "no built-in component reads it")


def handed(it, m):
    out = set()
    for e in it.events:
        if e.kind == "role":
            for v in list(e.data["args"]) + list(e.data["kwargs"].values()):
                v = it.resolve(v, m.st)
                if isinstance(v, Rec):
                    out.add(v.cls.name)
    return out


def flat(args):
    for a in args:
        if isinstance(a, T.Term):
            yield a
        elif isinstance(a, (tuple, list, frozenset)):
            yield from flat(a)


def value_terms(it, m, v):
    from ..values import Value
    if isinstance(v, T.Term):
        return [v]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in value_terms(it, m, x)]
    if isinstance(v, dict):
        return [t for x in v.values() for t in value_terms(it, m, x)]
    if isinstance(v, Value):
        try:
            return [it.tm(v, m.st)]
        except Exception:
            return []
    return []
