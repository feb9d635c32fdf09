"""Roles: how the whole-program analysis treats the package's own abstractions.

The whole-program analysis does not look inside the history, the region and the
interchangeable components.  Every such abstraction is replaced by the contract
stated here, and the contract itself is a separate obligation that the rules in
`sa/rules` establish from the code of the abstraction.
"""
from . import terms as T
from .interp import Interp, elem, item
from .lemma import params, start
from .project import Broken
from .values import Bound, Cls, Component, DictS, Func, Hooked, InstS, Ite, ListS, Rec, Ref, Tup, Val

HIST = "tranquilo.history.History"
REGION = "tranquilo.region.Region"
BOUNDS = "tranquilo.bounds.Bounds"


# ------------------------------------------------------------------- options
def option_bundle(interp, st, f, args, kwargs, node):
    b = interp.bind(f, args, kwargs, st, node)
    names = list(b)
    default, user = b[names[0]], b[names[1]]
    default = interp.resolve(default, st)
    ut = interp.tm(user, st)

    def one(d, s):
        if isinstance(d, Val) and d.term is T.NONE:
            d = Val(T.NONE)
        if not isinstance(d, Rec):
            return Val(T.call("options", interp.tm(d, s), ut))
        if ut is T.NONE:
            return d
        return Rec(d.cls, {k: option_field(interp, s, d.cls.name, k, v, ut) for k, v in d.fields.items()})

    return interp.lift(default, st, one)


def option_field(interp, st, cls, k, v, ut):
    if not isinstance(v, (Val, Ite)):
        # structured default (a nested record): keep it as alternative
        return Ite(T.call("isgiven", ut, T.const(k)), Val(T.call("option", ut, T.const(cls), T.const(k))), v)
    return Val(T.call("option", ut, T.const(cls), T.const(k), interp.tm(v, st)))


# ------------------------------------------------------------------ components
def component(interp, st, f, args, kwargs, node):
    b = interp.bind(f, args, kwargs, st, node)
    label = interp.tm(b["component_name"], st)
    label = T.cval(label) if T.is_const(label) else T.show(label)
    reg = {}
    fd = interp.resolve(b["func_dict"], st)
    if isinstance(fd, Ref):
        o = interp.hobj(st, fd)
        for p in o.parts:
            if p[0] == "kv" and T.is_const(p[1]):
                reg[T.cval(p[1])] = p[2]
    c = Component(label, reg, b["name_or_func"], b["default_options"], b["user_options"],
                  {"mandatory": b.get("mandatory_signature"), "bound": b})
    interp.components.append((c, node, interp.frames[-1].module, interp.frames[-1].func))
    interp.event("getcomponent", st, node, comp=c)
    return c


def inline_component(interp, c, name, args, kwargs, st, node):
    """Call the built-in `name` of component c the way the wrapper does."""
    f = c.registry[name]
    if not isinstance(f, Func):
        raise Broken(f"{c.label} {name!r} is not a package function")
    sig = params(f)
    opts = {}
    if c.default_options is not None:
        d = interp.resolve(c.default_options, st)
        r = option_bundle_value(interp, st, d, c.user_options)
        if isinstance(r, Rec):
            opts = {k: v for k, v in r.fields.items() if k in sig}
    kw = dict(zip(sig, args))
    kw.update(kwargs)
    kw = {k: v for k, v in kw.items() if k in sig}
    o = dict(opts)
    o.update(kw)
    return interp.call(f, [], o, st, node)


def option_bundle_value(interp, st, default, user):
    ut = interp.tm(user, st) if user is not None else T.NONE
    if isinstance(default, Val) and default.term is T.NONE:
        return None
    if isinstance(default, Rec):
        if ut is T.NONE:
            return default
        return Rec(default.cls, {k: option_field(interp, st, default.cls.name, k, v, ut)
                                 for k, v in default.fields.items()})
    return None


def role_call(interp, c, args, kwargs, st, node):
    """Summary of a component call: an event and an unconstrained fresh result."""
    r = interp.ev_term("comp", T.const(c.label))
    a = tuple(args)
    interp.event("component", st, node, label=c.label, comp=c, args=a, kwargs=dict(kwargs), result=r,
                 heap=st.heap)
    return Val(r, frozenset({interp.newloc("new")}))


# --------------------------------------------------------------------- history
def history_hooks():
    h = {}

    def new(interp, st, ci, args, kwargs, node):
        if args:
            ft = args[0]
        else:
            ft = kwargs.get("functype", Val(T.NONE))
        ref = interp.alloc(st, InstS(ci, {
            "functype": ft, "_nx": Val(T.ZERO), "_nf": Val(T.const("f0"))}))
        interp.event("newhistory", st, node, loc=ref.loc, functype=interp.tm(ft, st))
        return ref

    h["new:" + HIST] = new

    def attr(st, interp, ref, k):
        return interp.tm(interp.hobj(st, ref).attrs[k], st)

    def setattrs(st, interp, ref, **kw):
        o = interp.hobj(st, ref)
        a = dict(o.attrs)
        a.update(kw)
        st.heap[ref.loc] = InstS(o.cls, a)

    def method(name):
        def deco(fn):
            def hook(interp, st, f, args, kwargs, node):
                self_ = interp.resolve(args[0], st) if args else None
                if not isinstance(self_, Ref) or "_nx" not in interp.hobj(st, self_).attrs:
                    return None
                b = interp.bind(f, args, kwargs, st, node)
                return fn(interp, st, self_, b, node)

            h[f"{HIST}.{name}"] = hook
            return fn
        return deco

    @method("add_xs")
    def add_xs(interp, st, self_, b, node):
        xs = [v for k, v in b.items() if k != "self"][0]
        xt = interp.tm(xs, st)
        nx = attr(st, interp, self_, "_nx")
        if nx is T.ZERO:
            idx = T.ZERO
            first = True
        else:
            idx = interp.ev_term("idx", xt)
            first = False
        e = interp.event("add_xs", st, node, xs=xs, xt=xt, idx=idx, first=first, loc=self_.loc, nx=nx)
        interp.added[idx] = (xt, e)
        setattrs(st, interp, self_, _nx=Val(interp.ev_term("nx", nx)))
        return Val(idx, frozenset({interp.newloc("new")}) if not first else frozenset())

    @method("add_evals")
    def add_evals(interp, st, self_, b, node):
        interp.event("add_evals", st, node, args={k: interp.tm(v, st) for k, v in b.items() if k != "self"})
        setattrs(st, interp, self_, _nf=Val(interp.ev_term("nf")))
        return Val(T.NONE)

    @method("get_xs")
    def get_xs(interp, st, self_, b, node):
        i = interp.tm(b.get("x_indices", Val(T.NONE)), st)
        fr = frozenset({interp.newloc("new")})
        if i is T.NONE:
            return Val(T.call("xsall", attr(st, interp, self_, "_nx")), fr)
        return Val(xs_of(interp, i), fr)

    def fv(kind):
        def g(interp, st, self_, b, node):
            i = interp.tm(b["x_indices"], st)
            return Val(T.call(kind, i, attr(st, interp, self_, "_nf")))
        return g

    method("get_fvals")(fv("fvals"))
    method("get_fvecs")(fv("fvecs"))

    @method("get_n_evals")
    def get_n_evals(interp, st, self_, b, node):
        i = interp.tm(b["x_indices"], st)
        v = attr(st, interp, self_, "_nf")
        e = elem(i)
        return interp.alloc(st, DictS([("map", i, e, e, Val(T.call("nevals", e, v)), T.TRUE)]))

    @method("get_model_data")
    def get_model_data(interp, st, self_, b, node):
        i = interp.tm(b["x_indices"], st)
        avg = interp.tm(b.get("average", Val(T.TRUE)), st)
        v = attr(st, interp, self_, "_nf")
        xs = xs_of(interp, i)
        if avg is not T.TRUE:
            xs = T.call("repeatrows", xs, T.call("nevals", i, v), avg)
        return Tup([Val(xs, frozenset({interp.newloc("new")})),
                    Val(T.call("modelfvecs", i, v, avg), frozenset({interp.newloc("new")}))])

    @method("get_n_fun")
    def get_n_fun(interp, st, self_, b, node):
        return Val(T.call("nfun", attr(st, interp, self_, "_nf")))

    @method("get_n_xs")
    def get_n_xs(interp, st, self_, b, node):
        return Val(T.call("nxs", attr(st, interp, self_, "_nx")))

    @method("get_x_indices_in_region")
    def in_region(interp, st, self_, b, node):
        r = interp.resolve([v for k, v in b.items() if k != "self"][0], st)
        c = interp.tm(interp.getattr(r, "center", st, node), st)
        rad = interp.tm(interp.getattr(r, "radius", st, node), st)
        return Val(T.call("inregion", c, rad, attr(st, interp, self_, "_nx"), attr(st, interp, self_, "_nf")))

    def attrs(interp, st, self_, name, node):
        if not isinstance(self_, Ref):
            return Val(T.mk("attr", interp.tm(self_, st), name))
        if name == "n_fun":
            return Val(T.call("nfun", attr(st, interp, self_, "_nf")))
        if name == "n_xs":
            return Val(T.call("nxs", attr(st, interp, self_, "_nx")))
        if name == "xs":
            return Val(T.call("xsraw", attr(st, interp, self_, "_nx")), frozenset({"historydata"}))
        if name in ("fvecs", "fvals", "index_mapper"):
            return Val(T.call("raw" + name, attr(st, interp, self_, "_nf")), frozenset({"historydata"}))
        interp.issue("attr", node, f"History has no attribute {name}", st)
        return Val(T.mk("attr", T.sym("history"), name))

    h["attr:" + HIST] = attrs
    return h


def xs_of(interp, i):
    if i in interp.added:
        return interp.added[i][0]
    if i.op == "item" and i.args[0] in interp.added:
        return item(interp.added[i.args[0]][0], i.args[1])
    if i.op == "elem" and i.args[0] in interp.added:
        return elem(interp.added[i.args[0]][0])
    if i.op == "ite":
        return T.ite(i.args[0], xs_of(interp, i.args[1]), xs_of(interp, i.args[2]))
    return T.call("xs", i)


def wrapped_criterion(interp, st, f, args, kwargs, node):
    b = interp.bind(f, args, kwargs, st, node)
    hist = interp.resolve(b["history"], st)
    data = {"bound": b}

    def evaluate(interp, st, args, kwargs, node):
        info = args[0] if args else next(iter(kwargs.values()))
        info = interp.resolve(info, st)
        parts = None
        if isinstance(info, Ref):
            o = interp.hobj(st, info)
            if o.kind == "dict":
                parts = o.parts
        t = interp.tm(info, st)
        o = interp.hobj(st, hist)
        old = interp.tm(o.attrs["_nf"], st)
        nf = interp.ev_term("nf")
        e = interp.event("evaluate", st, node, parts=parts, info=t, old=old, nf=nf, state=None)
        a = dict(o.attrs)
        a["_nf"] = Val(nf)
        st.heap[hist.loc] = InstS(o.cls, a)
        interp.versions[nf] = (e, old)
        return Val(T.NONE)

    interp.event("wrapcriterion", st, node, bound={k: interp.tm(v, st) for k, v in b.items()})
    return Hooked("evaluate", evaluate, data)


# ---------------------------------------------------------------------- region
REGION_ATTRS = ("shape", "cube_bounds", "cube_center", "effective_center", "effective_radius",
                "_cube_bounds", "_cube_center")


def region_hooks():
    h = {}

    def fields(interp, st, self_):
        return [interp.tm(self_.fields[k], st) for k in ("center", "radius", "bounds")]

    def new(interp, st, ci, args, kwargs, node):
        names = [f[0] for f in ci.fields]
        fs = dict(zip(names, args))
        fs.update(kwargs)
        for k, v in fs.items():
            if k not in names:
                interp.issue("arity", node, f"{ci.name}: unexpected field {k}", st)
        if "bounds" not in fs:
            fs["bounds"] = Val(T.NONE)
        r = Rec(ci, {k: interp.resolve(fs[k], st) for k in names})
        interp.event("newregion", st, node, fields={k: interp.tm(v, st) for k, v in r.fields.items()})
        return r

    h["new:" + REGION] = new

    def attr(interp, st, self_, name, node):
        if name not in REGION_ATTRS:
            interp.issue("attr", node, f"Region has no attribute {name}", st)
        if name.endswith("cube_bounds"):
            return cube(interp, st, self_)
        return Val(T.call("region." + name.lstrip("_"), *fields(interp, st, self_)))

    def cube(interp, st, self_):
        fs = fields(interp, st, self_)
        return Rec(interp.find_class("Bounds"), {k: Val(T.call("region.cube_" + k, *fs)) for k in ("lower", "upper")})

    h["attr:" + REGION] = attr

    def m(which):
        def hook(interp, st, f, args, kwargs, node):
            self_ = interp.resolve(args[0], st)
            b = interp.bind(f, args, kwargs, st, node)
            x = [v for k, v in b.items() if k != "self"][0]
            if isinstance(self_, Rec):
                fs = fields(interp, st, self_)
            else:
                t = interp.tm(self_, st)
                fs = [T.mk("attr", t, k) for k in ("center", "radius", "bounds")]
            return Val(T.call("region." + which, interp.tm(x, st), *fs),
                       frozenset({interp.newloc("new")}))
        return hook

    h[REGION + ".map_from_unit"] = m("map_from_unit")
    h[REGION + ".map_to_unit"] = m("map_to_unit")

    def prop(which):
        def hook(interp, st, f, args, kwargs, node):
            self_ = interp.resolve(args[0], st)
            if isinstance(self_, Rec):
                if which.endswith("cube_bounds"):
                    return cube(interp, st, self_)
                return Val(T.call("region." + which, *fields(interp, st, self_)))
            return None
        return hook

    for p in ("cube_bounds", "cube_center"):
        h[f"{REGION}.{p}"] = prop(p)

    def replace(interp, st, f, args, kwargs, node):
        self_ = interp.resolve(args[0], st)
        if not isinstance(self_, Rec):
            return None
        r = dict(self_.fields)
        for k, v in kwargs.items():
            if k not in r:
                interp.issue("arity", node, f"Region._replace: unknown field {k}", st)
            r[k] = interp.resolve(v, st)
        out = Rec(self_.cls, r)
        interp.event("newregion", st, node, fields={k: interp.tm(v, st) for k, v in r.items()})
        return out

    h[REGION + "._replace"] = replace
    return h


def bounds_hooks():
    h = {}

    def new(interp, st, ci, args, kwargs, node):
        names = [f[0] for f in ci.fields]
        fs = dict(zip(names, args))
        fs.update(kwargs)
        return Rec(ci, {k: interp.resolve(fs.get(k, Val(T.NONE)), st) for k in names})

    h["new:" + BOUNDS] = new

    def attr(interp, st, self_, name, node):
        if name == "has_any":
            return Val(T.truth(T.call("bounds.has_any", interp.tm(self_.fields["lower"], st),
                                      interp.tm(self_.fields["upper"], st))))
        interp.issue("attr", node, f"Bounds has no attribute {name}", st)
        return Val(T.mk("attr", interp.tm(self_, st), name))

    h["attr:" + BOUNDS] = attr
    return h


# ------------------------------------------------------------------ main program
class Main:
    """Result of the whole-program analysis for one acceptance rule."""


def main_hooks():
    h = {}
    h.update(history_hooks())
    h.update(region_hooks())
    h.update(bounds_hooks())
    h["tranquilo.options.update_option_bundle"] = option_bundle
    h["tranquilo.get_component.get_component"] = component
    h["tranquilo.wrap_criterion.get_wrapped_criterion"] = wrapped_criterion
    return h


def symbolic_args(f):
    out = {}
    for p in params(f):
        if p == "criterion":
            out[p] = Hooked("criterion", None)
        else:
            out[p] = Val(T.sym(p), frozenset({f"param:{p}"}))
    return out


def deciders(project):
    """Names of the built-in acceptance rules, from their registry."""
    from . import lemma
    seen = []

    def cap(interp, st, f, args, kwargs, node):
        c = component(interp, st, f, args, kwargs, node)
        seen.append(c)
        return c

    interp = Interp(project, {"tranquilo.get_component.get_component": cap})
    interp.components = []
    f = interp.find_func("get_acceptance_decider")
    st = start(interp, f.module)
    interp.call(f, [], {k: Val(T.sym(k)) for k in params(f)}, st, f.node)
    if len(seen) != 1 or not seen[0].registry:
        raise Broken("get_acceptance_decider: registry of acceptance rules not found")
    return seen[0].label, list(seen[0].registry)


def run_main(project, decider, label, extra_hooks=None, overrides=None):
    def comp_call(interp, c, args, kwargs, st, node):
        if c.label == label:
            sel = interp.tm(c.selected, st)
            if T.is_const(sel) and T.cval(sel) in c.registry:
                interp.event("accept", st, node, args=tuple(args), kwargs=dict(kwargs))
                n0 = len(interp.events)
                r = inline_component(interp, c, T.cval(sel), args, kwargs, st, node)
                interp.event("accepted", st, node, result=r, first=n0)
                return r
        return role_call(interp, c, args, kwargs, st, node)

    hooks = main_hooks()
    hooks.update(extra_hooks or {})
    it = Interp(project, hooks, comp_call)
    it.components = []
    it.added = {}
    it.versions = {}
    pa = it.find_func("process_arguments")
    f = it.find_func("_tranquilo")
    st = start(it, f.module)
    vals = symbolic_args(pa)
    for need in ("criterion", "x", "lower_bounds", "upper_bounds", "acceptance_decider", "functype"):
        if need not in vals:
            raise Broken(f"process_arguments lost its parameter {need}")
    vals["acceptance_decider"] = Val(T.const(decider))
    vals.update(overrides or {})
    for p in ("seed", "n_cores", "x", "noisy", "functype"):
        st.assume(T.cmp("==", T.sym(p), T.NONE), False)
    r = it.call(f, [], vals, st, f.node)
    m = Main()
    m.it, m.st, m.result, m.decider = it, st, r, decider
    return m


# -------------------------------------------------- main loop with abstract parts
ROLES = {
    "sample": "tranquilo.sample_points.get_sampler",
    "solve": "tranquilo.solve_subproblem.get_subsolver",
    "filter": "tranquilo.filter_points.get_sample_filter",
    "fit": "tranquilo.fit_models.get_fitter",
    "aggregate": "tranquilo.aggregate_models.get_aggregator",
    "variance": "tranquilo.estimate_variance.get_variance_estimator",
    "accept": "tranquilo.acceptance_decision.get_acceptance_decider",
}
DIRECT = {
    "drop": "tranquilo.filter_points.drop_worst_points",
    "rhonoise": "tranquilo.rho_noise.simulate_rho_noise",
}
ROLE_RECORDS = {"solve": "SubproblemResult", "fit": "VectorModel", "aggregate": "ScalarModel", "accept": "AcceptanceResult"}


def role_fn(name):
    def fn(interp, st, args, kwargs, node):
        t = interp.ev_term("role", T.const(name))
        if name in ROLE_RECORDS:
            ci = interp.find_class(ROLE_RECORDS[name])
            r = Rec(ci, {f[0]: Val(T.mk("attr", t, f[0])) for f in ci.fields})
        elif name in ("filter", "drop"):
            r = Tup([Val(item(t, T.ZERO)), Val(item(t, T.ONE))])
        else:
            r = Val(t)
        interp.event("role", st, node, role=name, args=tuple(args), kwargs=dict(kwargs), result=r, term=t)
        if name == "accept":
            for loc, o in list(st.heap.items()):
                if isinstance(o, InstS) and "_nf" in o.attrs and "_nx" in o.attrs:
                    a = dict(o.attrs)
                    a["_nf"], a["_nx"] = Val(interp.ev_term("nf")), Val(interp.ev_term("nx"))
                    st.heap[loc] = InstS(o.cls, a)
        return r
    return fn


def find_qual(project, qual):
    """Current location of a function that may have been moved to another module."""
    mod, short = qual.rsplit(".", 1)
    it = Interp(project, {})
    try:
        return it.find_func(short, mod).qual
    except Broken:
        return it.find_func(short).qual


def loop_hooks(project):
    h = main_hooks()
    for name, qual in ROLES.items():
        qual = find_qual(project, qual)
        def get(interp, st, f, args, kwargs, node, name=name):
            b = interp.bind(f, args, kwargs, st, node)
            interp.event("getrole", st, node, role=name, bound={k: interp.tm(v, st) for k, v in b.items()})
            return Hooked(name, role_fn(name))
        h[qual] = get
    for name, qual in DIRECT.items():
        qual = find_qual(project, qual)

        def direct(interp, st, f, args, kwargs, node, name=name):
            b = interp.bind(f, args, kwargs, st, node)
            return role_fn(name)(interp, st, [], b, node)
        h[qual] = direct
    return h


def run_loop(project, extra_hooks=None, assume=()):
    it = Interp(project, {**loop_hooks(project), **(extra_hooks or {})})
    it.components, it.added, it.versions = [], {}, {}
    pa = it.find_func("process_arguments")
    f = it.find_func("_tranquilo")
    st = start(it, f.module)
    vals = symbolic_args(pa)
    for need in ("criterion", "x", "lower_bounds", "upper_bounds", "functype"):
        if need not in vals:
            raise Broken(f"process_arguments lost its parameter {need}")
    for p in ("seed", "n_cores", "x", "noisy", "functype"):
        st.assume(T.cmp("==", T.sym(p), T.NONE), False)
    for c, v in assume:
        st.assume(c, v)
    r = it.call(f, [], vals, st, f.node)
    m = Main()
    m.it, m.st, m.result = it, st, r
    return m
