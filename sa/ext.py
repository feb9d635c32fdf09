"""Meaning of library calls and of methods on plain values, as terms."""
from . import terms as T
from .values import (
    Bound, Cls, Component, DictS, Ext, Func, Hooked, InstS, Ite, ListS, Method, Mod, Partial,
    Rec, Ref, SetS, Tup, Val, map_term, vterm,
)

ALIAS = {
    "abs": "numpy.abs", "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs",
    "math.fabs": "numpy.abs", "math.sqrt": "numpy.sqrt", "math.ceil": "numpy.ceil",
    "math.floor": "numpy.floor", "math.log": "numpy.log", "math.exp": "numpy.exp",
    "math.isfinite": "numpy.isfinite", "math.isnan": "numpy.isnan", "math.isinf": "numpy.isinf",
    "numpy.row_stack": "numpy.vstack", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "numpy.average": "numpy.mean", "numpy.isneginf": "numpy.isneginf",
    "numpy.product": "numpy.prod", "numpy.dot": "numpy.matmul", "operator.matmul": "numpy.matmul",
    "numpy.take": "numpy.take", "numpy.linalg.linalg.norm": "numpy.linalg.norm",
    "math.pow": "numpy.power", "pow": "numpy.power", "scipy.linalg.norm": "numpy.linalg.norm",
    "any": "numpy.any", "all": "numpy.all", "numpy.alltrue": "numpy.all",
    "numpy.sometrue": "numpy.any", "numpy.isclose": "numpy.isclose",
}

REDUCE = {"mean", "sum", "min", "max", "std", "var", "any", "all", "argmin", "argmax", "prod",
          "argsort", "cumsum", "median"}

TRANSPARENT = {"float", "numpy.asarray", "numpy.float64", "numpy.float_", "numpy.asanyarray",
               "numpy.ascontiguousarray", "numpy.require", "numpy.double"}
COPYING = {"copy.copy", "copy.deepcopy", "numpy.copy"}
ARRAY_CTOR = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.eye", "numpy.arange",
              "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like",
              "numpy.linspace", "numpy.array", "numpy.identity", "numpy.diag", "numpy.triu",
              "numpy.tril", "numpy.repeat", "numpy.tile", "numpy.delete", "numpy.nan_to_num",
              "numpy.vstack", "numpy.hstack", "numpy.concatenate", "numpy.stack", "numpy.outer",
              "numpy.where", "numpy.sort", "numpy.cumsum", "numpy.linalg.inv", "numpy.linalg.pinv",
              "scipy.spatial.distance.pdist", "scipy.spatial.distance.squareform", "numpy.cov"}
VIEWS = {"numpy.reshape", "numpy.ravel", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze",
         "numpy.transpose", "numpy.split", "numpy.expand_dims", "numpy.broadcast_to",
         "numpy.swapaxes", "numpy.diagonal"}
MUTATORS = {"numpy.copyto": 0, "numpy.fill_diagonal": 0, "numpy.put": 0, "numpy.place": 0,
            "numpy.putmask": 0, "numpy.random.shuffle": 0, "random.shuffle": 0}
IMPURE = ("numpy.random.", "random.", "time.", "datetime.", "os.", "secrets.", "uuid.", "sys.",
          "subprocess.", "socket.", "threading.", "multiprocessing.")
IMPURE_NAMES = {"open", "print", "input", "id", "hash", "globals", "exec", "eval", "numpy.save",
                "numpy.load", "numpy.savetxt", "numpy.seterr"}
RNG_CTORS = {"numpy.random.default_rng", "numpy.random.Generator", "numpy.random.RandomState",
             "numpy.random.PCG64", "numpy.random.SeedSequence"}
TYPES = {"dict": "dict", "list": "list", "tuple": "tuple", "str": "str", "int": "int",
         "float": "float", "bool": "bool", "set": "set", "numpy.ndarray": "ndarray"}


def anylocs(interp, args):
    out = frozenset()
    for a in args:
        if isinstance(a, Val):
            out |= a.locs
    return out


def fresh(interp, t):
    return Val(t, frozenset({interp.newloc("new")}))


def signnorm(t):
    """Canonical sign for arguments of even functions."""
    if t.op == "sum" and t.args and t.args[0][0] < 0:
        return T.neg(t)
    if t.op == "const" and T.is_num(t) and t.args[1] < 0:
        return T.neg(t)
    return t


def t_abs(t):
    if T.is_num(t):
        return T.const(abs(t.args[1]))
    return T.call("numpy.abs", signnorm(t))


def t_norm(x, axis=None, ord_=None):
    if ord_ is not None and (ord_ is T.NONE or (T.is_num(ord_) and ord_.args[1] == 2)):
        ord_ = None
    kw = {}
    if axis is not None and axis is not T.NONE:
        kw["axis"] = axis
    if ord_ is not None:
        kw["ord"] = ord_
    if x is T.ZERO and not kw:
        return T.ZERO
    return T.call("numpy.linalg.norm", signnorm(x), **kw)


def t_sqrt(x):
    # sqrt(sum(d**2)) and sqrt(d @ d) are the euclidean norm
    if x.op == "call" and x.args[0] == "numpy.sum":
        a = x.args[1][0]
        d = _square_root(a)
        if d is not None:
            return t_norm(d, dict(x.args[2]).get("axis"))
    if x.op == "call" and x.args[0] == "matmul" and x.args[1][0] is x.args[1][1]:
        return t_norm(x.args[1][0])
    if T.is_num(x) and x.args[1] >= 0:
        return T.const(x.args[1] ** 0.5)
    return T.call("numpy.sqrt", x)


def _square_root(a):
    if a.op == "sum" and len(a.args) == 1 and a.args[0][0] == 1:
        m = a.args[0][1]
        if all(e % 2 == 0 for _, e in m):
            out = T.ONE
            for x, e in m:
                for _ in range(e // 2):
                    out = T.mul(out, x)
            return out
    # (p - q)**2 expanded
    if a.op == "sum":
        sq = {}
        for c, m in a.args:
            if len(m) == 1 and m[0][1] == 2 and c == 1:
                sq[m[0][0]] = True
        if len(sq) == 2:
            p, q = list(sq)
            for cand in (T.sub(p, q), T.add(p, q)):
                if T.mul(cand, cand) is a:
                    return cand
    return None


def t_finite(name, x):
    if T.is_num(x):
        v = x.args[1]
        fin = v not in (float("inf"), float("-inf"))
        return {"numpy.isfinite": T.TRUE if fin else T.FALSE,
                "numpy.isnan": T.FALSE,
                "numpy.isinf": T.FALSE if fin else T.TRUE}[name]
    if x is T.NAN:
        return {"numpy.isfinite": T.FALSE, "numpy.isnan": T.TRUE, "numpy.isinf": T.FALSE}[name]
    if x.op == "ite" and (T.is_const(x.args[1]) or T.is_const(x.args[2])):
        return T.ite(x.args[0], t_finite(name, x.args[1]), t_finite(name, x.args[2]))
    if name == "numpy.isfinite":
        x = signnorm(x)
    return T.call(name, x)


def _rows_known(t):
    return t.op == "call" and t.args[0] in ("numpy.empty", "numpy.zeros", "numpy.ones", "numpy.full") and bool(t.args[1]) \
        and t.args[1][0].op in ("list", "tuple") and bool(t.args[1][0].args)


def t_len(t):
    if t.op in ("list", "tuple"):
        return T.const(len(t.args))
    if t.op == "const" and isinstance(t.args[1], str):
        return T.const(len(t.args[1]))
    if t.op == "map" and t.args[3] is T.TRUE:
        return t_len(t.args[0])
    if t.op == "dmap" and t.args[4] is T.TRUE and t.args[2] is t.args[1]:
        return t_len(t.args[0])
    if t.op == "call" and t.args[0] == "range" and len(t.args[1]) == 1:
        return T.call("len", t)
    if t.op == "call" and t.args[0] == "keys":
        return t_len(t.args[1][0])
    if _rows_known(t):
        return t.args[1][0].args[0]
    if t.op == "ite" and any(x.op in ("list", "tuple") or _rows_known(x) for x in t.args[1:]):
        return T.ite(t.args[0], t_len(t.args[1]), t_len(t.args[2]))
    return T.call("len", t)


def t_matmul(a, b):
    return T.call("matmul", a, b)


T.REBUILD_CALL["numpy.abs"] = lambda args: t_abs(args[1][0])
T.REBUILD_CALL["len"] = lambda args: t_len(args[1][0])
T.REBUILD_CALL["numpy.sqrt"] = lambda args: t_sqrt(args[1][0])
T.REBUILD_CALL["numpy.linalg.norm"] = lambda args: t_norm(
    args[1][0], dict(args[2]).get("axis"), dict(args[2]).get("ord"))
for _n in ("numpy.isfinite", "numpy.isnan", "numpy.isinf"):
    T.REBUILD_CALL[_n] = lambda args, _n=_n: t_finite(_n, args[1][0])


def is_listlike(interp, v, st):
    v = interp.resolve(v, st)
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref):
        o = interp.hobj(st, v)
        if o is not None and o.kind == "list":
            return o.items()
    if isinstance(v, Val) and v.term.op in ("list", "tuple"):
        return [Val(x) for x in v.term.args]
    return None


def as_locs(v):
    return v.locs if isinstance(v, Val) else frozenset()


def callbacks(interp, args, kwargs, st, node):
    """Analyse function arguments handed to a library routine."""
    for v in list(args) + list(kwargs.values()):
        v = interp.resolve(v, st)
        _callback(interp, v, st, node)


def _callback(interp, v, st, node):
    if isinstance(v, Ite):
        _callback(interp, v.a, st, node)
        _callback(interp, v.b, st, node)
        return
    f, given = v, {}
    npos = 0
    while isinstance(f, (Partial, Bound)):
        if isinstance(f, Partial):
            given.update(f.kwargs)
            npos += len(f.args)
            f = f.func
        else:
            npos += 1
            f = f.func
    if not isinstance(f, Func):
        return
    a = f.node.args
    pos = [x.arg for x in a.args][npos:]
    nd = len(a.defaults)
    required = [p for p in pos if p not in given]
    if nd:
        req = [x.arg for x in a.args][: len(a.args) - nd]
        required = [p for p in required if p in req]
    cargs = [Val(T.sym(f"cb:{f.qual}:{p}"), frozenset({f"param:callback {p}"})) for p in required]
    if a.vararg is not None:
        cargs.append(Val(T.mk("starred", T.sym(f"cb:{f.qual}:*"))))
    if getattr(interp, "cb_depth", 0) > 2:
        return
    interp.cb_depth = getattr(interp, "cb_depth", 0) + 1
    try:
        s2 = st.copy()
        interp.call(v, cargs, {}, s2, node)
    finally:
        interp.cb_depth -= 1


# ----------------------------------------------------------------- functions
def call_ext(interp, name, args, kwargs, st, node):
    name = ALIAS.get(name, name)
    args = [interp.resolve(a, st) for a in args]
    kwargs = {k: interp.resolve(v, st) for k, v in kwargs.items()}
    h = interp.hooks.get("ext:" + name)
    if h is not None:
        r = h(interp, st, name, args, kwargs, node)
        if r is not None:
            return r
    f = SPECIAL.get(name)
    if f is not None:
        r = f(interp, name, args, kwargs, st, node)
        if r is not None:
            return r
    tm = lambda v: interp.tm(v, st)  # noqa
    base = name.rpartition(".")[2]
    if name.startswith("numpy.") and base in REDUCE and name == "numpy." + base:
        return reduce_call(interp, base, args, kwargs, st, node)
    if name in TRANSPARENT:
        if not args:
            return Val(T.const(0.0))
        v = args[0]
        if isinstance(v, Val):
            if v.term.op == "const" and name == "float":
                c = v.term.args[1]
                if isinstance(c, (int, float)) and not isinstance(c, bool):
                    return v
                if isinstance(c, str):
                    try:
                        return Val(T.const(float(c)))
                    except ValueError:
                        pass
            return v
        return Val(tm(v))
    if name in COPYING:
        v = args[0]
        if isinstance(v, Ref):
            return interp.alloc(st, interp.hobj(st, v))
        if isinstance(v, Val):
            return fresh(interp, v.term)
        return v
    if name in MUTATORS and args:
        tgt = args[MUTATORS[name]]
        new = T.call(name, *[tm(a) for a in args])
        if name == "numpy.fill_diagonal" and len(args) == 2 and isinstance(tgt, Val):
            new = T.mk("store", tgt.term, T.call("numpy.diag_indices_from", tgt.term), tm(args[1]))
        if isinstance(tgt, Val) and not tgt.locs and getattr(node, "args", None) and len(node.args) > MUTATORS[name]:
            interp._rebind_term(node.args[MUTATORS[name]], tgt.term, new, st)
        if isinstance(tgt, Val):
            if name.endswith("shuffle"):
                interp.event("impure", st, node, name=name, args=tuple(tm(a) for a in args))
            interp.write_array(tgt if tgt.locs else Val(tgt.term, frozenset({"tmp?"})), Val(new), st, node)
        elif isinstance(tgt, Ref):
            interp.container_mutation(tgt, "sort", [], {}, st, node)
        return Val(T.NONE)
    out = kwargs.get("out")
    if name in IMPURE_NAMES or (name.startswith(IMPURE) and name not in RNG_CTORS):
        t = interp.ev_term(name, *[tm(a) for a in args])
        interp.event("impure", st, node, name=name, args=tuple(tm(a) for a in args), result=t)
        return Val(t)
    if any(isinstance(interp.resolve(v, st), (Func, Partial, Bound, Ite)) for v in
           list(args) + list(kwargs.values())):
        callbacks(interp, args, kwargs, st, node)
    targs = tuple(tm(a) for a in args)
    tkw = {k: tm(v) for k, v in kwargs.items() if k not in ("dtype", "order", "out")}
    if name.startswith(("estimagic.batch_evaluators", "joblib", "pathos")):
        return interp.opaque_call(Ext(name), args, kwargs, st, node)
    if kwargs.get("overwrite_a") is not None or kwargs.get("overwrite_b") is not None:
        if args and isinstance(args[0], Val):
            interp.event("write", st, node, locs=args[0].locs, target=args[0].term,
                         value=T.call(name, *targs), aug=False)
    t = T.call(name, *targs, **tkw)
    if out is not None and isinstance(out, Val):
        interp.write_array(out if out.locs else Val(out.term, frozenset({"tmp?"})), Val(t), st, node)
        return Val(t, out.locs)
    if name in VIEWS and args:
        locs = as_locs(args[0])
        t = VIEW_TERM.get(name, lambda *a, **k: t)(targs, tkw) if name in VIEW_TERM else t
        return Val(t, locs)
    if name in ARRAY_CTOR or name.startswith("numpy.linalg."):
        return fresh(interp, t) if name in ARRAY_CTOR else Val(t)
    if anylocs(interp, args):
        return fresh(interp, t)
    return Val(t)


def _v_ravel(a, k):
    return T.call("numpy.ravel", a[0])


def _v_transpose(a, k):
    from .interp import transpose
    if len(a) == 1 and not k:
        return transpose(a[0])
    return T.call("numpy.transpose", *a, **k)


def _v_atleast_1d(a, k):
    if a[0].op == "call" and a[0].args[0] in ("numpy.atleast_1d",):
        return a[0]
    return T.call("numpy.atleast_1d", a[0])


def _v_reshape(a, k):
    shape = a[1] if len(a) > 1 else k.get("newshape", k.get("shape", T.NONE))
    if len(a) > 2:
        shape = T.mk("tuple", *a[1:])
    return t_reshape(a[0], shape)


def t_reshape(x, shape):
    if shape.op in ("tuple", "list") and len(shape.args) == 1:
        shape = shape.args[0]
    if T.is_num(shape) and shape.args[1] == -1:
        return T.call("numpy.ravel", x)
    if shape.op == "list":
        shape = T.mk("tuple", *shape.args)
    return T.call("numpy.reshape", x, shape)


VIEW_TERM = {"numpy.ravel": _v_ravel, "numpy.transpose": _v_transpose,
             "numpy.atleast_1d": _v_atleast_1d, "numpy.reshape": _v_reshape}


def reduce_call(interp, base, args, kwargs, st, node):
    tm = lambda v: interp.tm(v, st)  # noqa
    kwargs = dict(kwargs)
    a = args[0] if args else kwargs.pop("a", Val(T.NONE))
    axis = None
    if len(args) > 1:
        axis = tm(args[1])
    if "axis" in kwargs:
        axis = tm(kwargs.pop("axis"))
    for k in ("dtype", "out", "keepdims", "kind"):
        if k != "keepdims":
            kwargs.pop(k, None)
    kw = {k: tm(v) for k, v in kwargs.items()}
    if base == "var" and kw.get("ddof") is T.ZERO:
        kw.pop("ddof")
    items = is_listlike(interp, a, st)
    if items is not None and axis is None and not kw and items:
        ts = [tm(x) for x in items]
        if base == "min":
            return Val(T.tmin(*ts))
        if base == "max":
            return Val(T.tmax(*ts))
        if base == "sum":
            s = T.ZERO
            for x in ts:
                s = T.add(s, x)
            return Val(s)
        if base == "any":
            return Val(T.tor(*[T.truth(x) for x in ts]))
        if base == "all":
            return Val(T.tand(*[T.truth(x) for x in ts]))
    if items is not None and not items and base in ("any", "all"):
        return Val(T.TRUE if base == "all" else T.FALSE)
    t = tm(a)
    if axis is not None and axis is T.NONE:
        axis = None
    r = t_reduce(base, t, axis, kw)
    return Val(r)


def t_reduce(base, t, axis, kw):
    if base in ("any", "all") and axis is None and not kw:
        if t is T.TRUE or t is T.FALSE:
            return t
        # any(not m) == not all(m)
        if t.op == "not":
            other = "all" if base == "any" else "any"
            return T.tnot(T.call("numpy." + other, t.args[0]))
        if t.op == "call" and t.args[0] == "invert":
            other = "all" if base == "any" else "any"
            return T.tnot(T.call("numpy." + other, t.args[1][0]))
    if axis is not None:
        kw = dict(kw, axis=axis)
    return T.call("numpy." + base, t, **kw)


# -------------------------------------------------------------- special calls
SPECIAL = {}


def special(*names):
    def deco(f):
        for n in names:
            SPECIAL[n] = f
        return f
    return deco


@special("numpy.clip")
def _clip(interp, name, args, kwargs, st, node):
    tm = lambda v: interp.tm(v, st)  # noqa
    kwargs = dict(kwargs)
    a = args[0] if args else kwargs.get("a")
    lo = args[1] if len(args) > 1 else kwargs.get("a_min", kwargs.get("min"))
    hi = args[2] if len(args) > 2 else kwargs.get("a_max", kwargs.get("max"))
    t = tm(a)
    if lo is not None and tm(lo) is not T.NONE:
        t = T.tmax(t, tm(lo))
    if hi is not None and tm(hi) is not T.NONE:
        t = T.tmin(t, tm(hi))
    out = kwargs.get("out")
    if out is not None and isinstance(out, Val):
        interp.write_array(out if out.locs else Val(out.term, frozenset({"tmp?"})), Val(t), st, node)
        return Val(t, out.locs)
    return interp.fresh(t, [a])


@special("numpy.minimum", "numpy.fmin")
def _minimum(interp, name, args, kwargs, st, node):
    if len(args) < 2:
        return None
    return interp.fresh(T.tmin(*[interp.tm(a, st) for a in args[:2]]), args[:2])


@special("numpy.maximum", "numpy.fmax")
def _maximum(interp, name, args, kwargs, st, node):
    if len(args) < 2:
        return None
    return interp.fresh(T.tmax(*[interp.tm(a, st) for a in args[:2]]), args[:2])


@special("min", "max")
def _bmin(interp, name, args, kwargs, st, node):
    tm = lambda v: interp.tm(v, st)  # noqa
    key = kwargs.get("key")
    if key is not None:
        a = args[0]
        if isinstance(key, Method) and key.name in ("get", "__getitem__") and len(args) == 1:
            kr, ar = key.recv, a
            if (isinstance(kr, Ref) and isinstance(ar, Ref) and kr.loc == ar.loc) or tm(kr) is tm(ar) \
                    or (tm(ar).op == "call" and tm(ar).args[0] == "keys" and tm(ar).args[1][0] is tm(kr)):
                return Val(T.call("argminkey" if name == "min" else "argmaxkey", tm(kr)))
        src, el = interp.iter_elem(a, st)
        s2 = st.copy()
        kv = interp.call(key, [el], {}, s2, node)
        kt = tm(kv)
        # key=lambda i: d[i] over the keys of d
        return Val(T.call("argminkey" if name == "min" else "argmaxkey",
                          T.mk("dmap", src, tm(el), tm(el), kt, T.TRUE)))
    f = T.tmin if name == "min" else T.tmax
    if len(args) > 1:
        return Val(f(*[tm(a) for a in args]))
    items = is_listlike(interp, args[0], st)
    if items:
        return Val(f(*[tm(x) for x in items]))
    t = tm(args[0])
    kw = {}
    if "default" in kwargs:
        kw["default"] = tm(kwargs["default"])
    return Val(T.call("numpy." + name, t, **kw))


@special("sum")
def _bsum(interp, name, args, kwargs, st, node):
    r = reduce_call(interp, "sum", args[:1], {}, st, node)
    if len(args) > 1:
        return Val(T.add(interp.tm(r, st), interp.tm(args[1], st)))
    return r


@special("numpy.abs")
def _abs(interp, name, args, kwargs, st, node):
    return interp.fresh(t_abs(interp.tm(args[0], st)), args[:1])


@special("numpy.sqrt")
def _sqrt(interp, name, args, kwargs, st, node):
    return interp.fresh(t_sqrt(interp.tm(args[0], st)), args[:1])


@special("numpy.linalg.norm")
def _norm(interp, name, args, kwargs, st, node):
    tm = lambda v: interp.tm(v, st)  # noqa
    x = args[0] if args else kwargs.get("x")
    ord_ = args[1] if len(args) > 1 else kwargs.get("ord")
    axis = args[2] if len(args) > 2 else kwargs.get("axis")
    return Val(t_norm(tm(x), tm(axis) if axis is not None else None, tm(ord_) if ord_ is not None else None))


@special("numpy.isfinite", "numpy.isnan", "numpy.isinf")
def _isfin(interp, name, args, kwargs, st, node):
    return Val(t_finite(name, interp.tm(args[0], st)))


@special("numpy.square")
def _square(interp, name, args, kwargs, st, node):
    t = interp.tm(args[0], st)
    return interp.fresh(T.mul(t, t), args)


@special("numpy.power")
def _power(interp, name, args, kwargs, st, node):
    return interp.fresh(T.power(interp.tm(args[0], st), interp.tm(args[1], st)), args)


@special("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.true_divide",
         "operator.add", "operator.sub", "operator.mul", "operator.truediv")
def _arith(interp, name, args, kwargs, st, node):
    f = {"add": T.add, "subtract": T.sub, "sub": T.sub, "multiply": T.mul, "mul": T.mul,
         "divide": T.div, "true_divide": T.div, "truediv": T.div}[name.rpartition(".")[2]]
    t = f(interp.tm(args[0], st), interp.tm(args[1], st))
    out = kwargs.get("out")
    if isinstance(out, Val):
        interp.write_array(out if out.locs else Val(out.term, frozenset({"tmp?"})), Val(t), st, node)
        return Val(t, out.locs)
    return interp.fresh(t, args)


@special("numpy.negative", "operator.neg")
def _negative(interp, name, args, kwargs, st, node):
    return interp.fresh(T.neg(interp.tm(args[0], st)), args)


@special("numpy.matmul")
def _matmul(interp, name, args, kwargs, st, node):
    from .interp import matmul
    return interp.fresh(matmul(interp.tm(args[0], st), interp.tm(args[1], st)), args)


@special("numpy.logical_and", "numpy.logical_or")
def _land(interp, name, args, kwargs, st, node):
    a, b = [T.truth(interp.tm(x, st)) for x in args[:2]]
    return Val(T.tand(a, b) if name.endswith("and") else T.tor(a, b))


@special("numpy.logical_not", "operator.not_")
def _lnot(interp, name, args, kwargs, st, node):
    return Val(T.tnot(T.truth(interp.tm(args[0], st))))


@special("numpy.less", "numpy.less_equal", "numpy.greater", "numpy.greater_equal", "numpy.equal",
         "numpy.not_equal")
def _npcmp(interp, name, args, kwargs, st, node):
    op = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==",
          "not_equal": "!="}[name.rpartition(".")[2]]
    return Val(interp.compare(op, args[0], args[1], st, node))


@special("len")
def _len(interp, name, args, kwargs, st, node):
    v = args[0]
    if isinstance(v, Tup):
        return Val(T.const(len(v.items)))
    if isinstance(v, Rec) and v.cls.kind == "namedtuple":
        return Val(T.const(len(v.fields)))
    if isinstance(v, Ref):
        o = interp.hobj(st, v)
        if o.kind == "list":
            its = o.items()
            if its is not None:
                return Val(T.const(len(its)))
            if len(o.parts) == 1 and o.parts[0][0] == "map" and o.parts[0][4] is T.TRUE:
                return Val(t_len(o.parts[0][1]))
        if o.kind == "dict":
            k = o.known()
            if k is not None and not any(_has_undef(x) for x in k.values()):
                return Val(T.const(len(k)))
    if isinstance(v, Ite):
        return interp.lift(v, st, lambda x, s: _len(interp, name, [x], {}, s, node))
    return Val(t_len(interp.tm(v, st)))


def _has_undef(v):
    from .interp import _maybe_undef
    return _maybe_undef(v)


@special("isinstance")
def _isinstance(interp, name, args, kwargs, st, node):
    v, ty = args[0], args[1]
    if isinstance(v, Ite):
        return interp.lift(v, st, lambda x, s: _isinstance(interp, name, [x, ty], {}, s, node))
    tys = ty.items if isinstance(ty, Tup) else [ty]
    res = []
    for t in tys:
        res.append(_isinst1(interp, v, t, st))
    return Val(T.tor(*res))


def _isinst1(interp, v, ty, st):
    ty = interp.resolve(ty, st)
    if isinstance(ty, Cls):
        if isinstance(v, Rec):
            return T.TRUE if v.cls is ty.info else T.FALSE
        if isinstance(v, Ref):
            o = interp.hobj(st, v)
            if o.kind == "inst":
                return T.TRUE if o.cls is ty.info else T.FALSE
            return T.FALSE
        if isinstance(v, (Func, Partial, Tup, Bound)):
            return T.FALSE
        t = interp.tm(v, st)
        if t.op == "const":
            return T.FALSE
        return T.mk("isinst", t, ty.info.qual)
    tn = TYPES.get(ty.name) if isinstance(ty, Ext) else None
    if tn is None:
        tt = interp.tm(ty, st)
        if isinstance(v, Val) and v.term.op == "const":
            if ty and isinstance(ty, Ext) and ty.name == "numpy.random.Generator":
                return T.FALSE
        return T.mk("isinst", interp.tm(v, st), T.show(tt))
    if isinstance(v, Ref):
        o = interp.hobj(st, v)
        return T.TRUE if o is not None and o.kind == tn else T.FALSE
    if isinstance(v, Tup):
        return T.TRUE if tn == "tuple" else T.FALSE
    if isinstance(v, Rec):
        return T.TRUE if tn == "tuple" and v.cls.kind == "namedtuple" else T.FALSE
    if isinstance(v, (Func, Partial, Bound, Cls, Mod, Component, Hooked, Ext)):
        return T.FALSE
    t = interp.tm(v, st)
    if t.op == "const":
        c = t.args[1]
        pt = {"dict": dict, "list": list, "tuple": tuple, "str": str, "int": int, "float": float,
              "bool": bool, "set": set}.get(tn)
        if pt is None:
            return T.FALSE
        return T.TRUE if isinstance(c, pt) else T.FALSE
    if t.op in ("list", "tuple") and tn in ("list", "tuple", "str", "dict"):
        return T.TRUE if t.op == tn else T.FALSE
    return T.mk("isinst", t, tn)


@special("callable")
def _callable(interp, name, args, kwargs, st, node):
    v = args[0]
    if isinstance(v, Ite):
        return interp.lift(v, st, lambda x, s: _callable(interp, name, [x], {}, s, node))
    if isinstance(v, (Func, Partial, Bound, Cls, Component, Hooked, Ext, Method)):
        return Val(T.TRUE)
    if isinstance(v, (Tup, Rec)):
        return Val(T.FALSE)
    t = interp.tm(v, st)
    if t.op == "const":
        return Val(T.FALSE)
    if st.facts.get(T.mk("isinst", t, "str")) is True:
        return Val(T.FALSE)
    return Val(T.call("callable", t))


@special("type")
def _type(interp, name, args, kwargs, st, node):
    v = args[0]
    if isinstance(v, Rec):
        return Cls(v.cls)
    if isinstance(v, Val) and v.term.op == "const" and type(T.cval(v.term)) in (bool, int, float, str):
        return Ext(type(T.cval(v.term)).__name__)
    return Val(T.call("type", interp.tm(v, st)))


@special("bool")
def _bool(interp, name, args, kwargs, st, node):
    return Val(T.truth(interp.tm(args[0], st))) if args else Val(T.FALSE)


@special("numpy.bool_")
def _npbool(interp, name, args, kwargs, st, node):
    return Val(T.truth(interp.tm(args[0], st)))


@special("int", "numpy.int64", "numpy.int_")
def _int(interp, name, args, kwargs, st, node):
    if not args:
        return Val(T.ZERO)
    t = interp.tm(args[0], st)
    if T.is_finite_num(t):
        return Val(T.const(int(t.args[1])))
    if t.op == "call" and t.args[0] in ("int", "len"):
        return Val(t)
    return Val(T.call("int", t))


def _int_rebuild(args):
    t = args[1][0]
    if T.is_finite_num(t):
        return T.const(int(t.args[1]))
    if t.op == "call" and t.args[0] in ("int", "len"):
        return t
    return T.call("int", t)


T.REBUILD_CALL["int"] = _int_rebuild


@special("str", "repr")
def _str(interp, name, args, kwargs, st, node):
    t = interp.tm(args[0], st) if args else T.const("")
    if t.op == "const" and isinstance(t.args[1], str):
        return Val(t)
    return Val(T.call("str", t))


@special("range")
def _range(interp, name, args, kwargs, st, node):
    ts = [interp.tm(a, st) for a in args]
    if len(ts) == 2 and ts[0] is T.ZERO:
        ts = ts[1:]
    return Val(T.call("range", *ts))


@special("numpy.arange")
def _arange(interp, name, args, kwargs, st, node):
    ts = [interp.tm(a, st) for a in args]
    if not ts and "stop" in kwargs:
        ts = [interp.tm(kwargs["stop"], st)]
    if len(ts) == 2 and ts[0] is T.ZERO:
        ts = ts[1:]
    return fresh(interp, T.call("numpy.arange", *ts))


@special("zip")
def _zip(interp, name, args, kwargs, st, node):
    from .interp import elem, item
    known = [interp.known_items(a, st) for a in args]
    if known and all(k is not None for k in known):
        n = min(len(k) for k in known)
        return Tup([Tup([k[i] for k in known]) for i in range(n)])
    parts = [interp.iter_elem(a, st) for a in args]
    srcs = [p[0] for p in parts]
    if srcs and all(s is srcs[0] for s in srcs):
        return Hooked("iter", None, {"src": srcs[0], "elem": Tup([p[1] for p in parts]), "args": args})
    zs = T.mk("zip", *srcs)
    el = []
    for i, (s, v) in enumerate(parts):
        el.append(interp.subst_val(v, {elem(s): item(elem(zs), T.const(i))}, st))
    return Hooked("iter", None, {"src": zs, "elem": Tup(el), "args": args})


@special("enumerate")
def _enumerate(interp, name, args, kwargs, st, node):
    from .interp import elem
    start = interp.tm(args[1], st) if len(args) > 1 else (
        interp.tm(kwargs["start"], st) if "start" in kwargs else T.ZERO)
    known = interp.known_items(args[0], st)
    if known is not None and T.is_num(start):
        return Tup([Tup([Val(T.const(int(start.args[1]) + i)), x]) for i, x in enumerate(known)])
    src, el = interp.iter_elem(args[0], st)
    idx = T.add(elem(T.call("range", t_len(src))), start)
    return Hooked("iter", None, {"src": src, "elem": Tup([Val(idx), el]), "args": args})


@special("reversed")
def _reversed(interp, name, args, kwargs, st, node):
    known = interp.known_items(args[0], st)
    if known is not None:
        return Tup(known[::-1])
    return Val(T.call("reversed", interp.tm(args[0], st)))


@special("sorted")
def _sorted(interp, name, args, kwargs, st, node):
    o = interp.hobj(st, args[0]) if isinstance(args[0], Ref) else None
    if not kwargs and o is not None and o.kind == "set" and o.term.op == "set" and all(T.is_const(x) for x in o.term.args):
        c = [T.cval(x) for x in o.term.args]
        if len({type(x) for x in c}) <= 1:
            return interp.alloc(st, ListS([("item", Val(T.const(x))) for x in sorted(c)]))
    return Val(T.call("sorted", interp.tm(args[0], st),
                      **{k: interp.tm(v, st) for k, v in kwargs.items()}))


@special("list", "tuple")
def _list(interp, name, args, kwargs, st, node):
    if not args:
        return interp.alloc(st, ListS([])) if name == "list" else Tup([])
    v = args[0]
    items = interp.known_items(v, st)
    if items is not None:
        return interp.alloc(st, ListS([("item", x) for x in items])) if name == "list" else Tup(items)
    if isinstance(v, Ref):
        o = interp.hobj(st, v)
        if o.kind == "list":
            return interp.alloc(st, o)
        if o.kind == "dict":
            src, el = interp.iter_elem(v, st)
            return _maplist(interp, st, src, el)
    if isinstance(v, Hooked) and v.name == "iter":
        return _maplist(interp, st, v.data["src"], v.data["elem"])
    t = interp.tm(v, st)
    if t.op == "dmap":
        return Val(dmap_keys(t))
    return Val(t, as_locs(v))


def _maplist(interp, st, src, el):
    from .interp import elem
    return interp.alloc(st, ListS([("map", src, elem(src), el, T.TRUE)]))


def dmap_keys(t):
    src, var, key, body, cond = t.args
    return map_term(src, var, key, cond)


def dmap_values(t):
    src, var, key, body, cond = t.args
    return map_term(src, var, body, cond)


@special("dict")
def _dict(interp, name, args, kwargs, st, node):
    r = interp.alloc(st, DictS([]))
    if args:
        v = args[0]
        if isinstance(v, Ref) and interp.hobj(st, v).kind == "dict":
            interp.container_mutation(r, "update", [v], {}, st, node, fresh=True)
        else:
            known = interp.known_items(v, st)
            if known is not None:
                for p in known:
                    kv = interp.known_items(p, st)
                    if kv is not None and len(kv) == 2:
                        interp.container_mutation(r, "setitem", kv, {}, st, node, fresh=True)
            elif isinstance(v, Hooked) and v.name == "iter":
                from .interp import elem
                el = v.data["elem"]
                kv = interp.known_items(el, st)
                if kv is not None and len(kv) == 2:
                    src = v.data["src"]
                    st.heap[r.loc] = DictS([("map", src, elem(src), interp.tm(kv[0], st), kv[1], T.TRUE)])
            else:
                st.heap[r.loc] = DictS([("splice", interp.tm(v, st))])
    for k, v in kwargs.items():
        if k == "**":
            interp.container_mutation(r, "update", [v], {}, st, node, fresh=True)
        else:
            interp.container_mutation(r, "setitem", [Val(T.const(k)), v], {}, st, node, fresh=True)
    return r


@special("dict.fromkeys")
def _fromkeys(interp, name, args, kwargs, st, node):
    from .interp import elem
    known = interp.known_items(args[0], st)
    v = args[1] if len(args) > 1 else Val(T.NONE)
    if known is not None:
        return interp.alloc(st, DictS([("kv", interp.tm(k, st), v) for k in known]))
    src, el = interp.iter_elem(args[0], st)
    return interp.alloc(st, DictS([("map", src, elem(src), interp.tm(el, st), v, T.TRUE)]))


@special("set", "frozenset")
def _set(interp, name, args, kwargs, st, node):
    if not args:
        return interp.alloc(st, SetS(T.mk("set")))
    items = interp.known_items(args[0], st)
    if items is not None:
        return interp.alloc(st, SetS(T.mk("set", *[interp.tm(x, st) for x in items])))
    t = interp.tm(args[0], st)
    if isinstance(args[0], Ref) and interp.hobj(st, args[0]).kind == "dict":
        t = T.call("keys", t)
    return interp.alloc(st, SetS(T.call("set", t)))


@special("getattr")
def _getattr(interp, name, args, kwargs, st, node):
    k = interp.tm(args[1], st)
    if k.op == "const" and isinstance(k.args[1], str):
        if len(args) > 2 and isinstance(args[0], Val):
            return Val(T.call("getattr", interp.tm(args[0], st), k, interp.tm(args[2], st)))
        return interp.getattr(args[0], k.args[1], st, node)
    return Val(T.call("getattr", interp.tm(args[0], st), k))


@special("hasattr")
def _hasattr(interp, name, args, kwargs, st, node):
    k = interp.tm(args[1], st)
    if isinstance(args[0], Rec) and k.op == "const":
        r = args[0]
        n = k.args[1]
        ok = n in r.fields or n in r.cls.methods or n in ("_replace", "_asdict", "_fields") and \
            r.cls.kind == "namedtuple"
        return Val(T.TRUE if ok else T.FALSE)
    return Val(T.truth(T.call("hasattr", interp.tm(args[0], st), k)))


@special("setattr", "object.__setattr__")
def _setattr(interp, name, args, kwargs, st, node):
    k = interp.tm(args[1], st)
    if isinstance(args[0], Ref) and k.op == "const":
        o = interp.hobj(st, args[0])
        if o.kind == "inst":
            attrs = dict(o.attrs)
            attrs[k.args[1]] = args[2]
            st.heap[args[0].loc] = InstS(o.cls, attrs)
            if name == "setattr":
                interp.event("setattr", st, node, cls=o.cls, attr=k.args[1], loc=args[0].loc, value=args[2])
            return Val(T.NONE)
    interp.event("setattr", st, node, cls=getattr(args[0], "cls", None), attr=T.show(k), loc=None,
                 value=args[2], base=interp.tm(args[0], st))
    return Val(T.NONE)


@special("functools.partial")
def _partial(interp, name, args, kwargs, st, node):
    return Partial(args[0], args[1:], kwargs)


@special("functools.wraps")
def _wraps(interp, name, args, kwargs, st, node):
    return Hooked("decorator", lambda i, s, a, k, n: a[0], {})


@special("functools.lru_cache", "functools.cache")
def _cache(interp, name, args, kwargs, st, node):
    if args and isinstance(args[0], Func):
        interp.event("memo", st, node, func=args[0].qual)
        return args[0]
    return Hooked("decorator", lambda i, s, a, k, n: a[0], {})


@special("numba.njit", "numba.jit", "numba.vectorize")
def _njit(interp, name, args, kwargs, st, node):
    if args and isinstance(args[0], Func):
        return args[0]
    return Hooked("decorator", lambda i, s, a, k, n: a[0], {})


@special("functools.reduce")
def _reduce(interp, name, args, kwargs, st, node):
    known = interp.known_items(args[1], st)
    if known is None:
        return None
    known = list(known)
    acc = args[2] if len(args) > 2 else known.pop(0)
    for x in known:
        acc = interp.call(args[0], [acc, x], {}, st, node)
    return acc


@special("map")
def _map(interp, name, args, kwargs, st, node):
    from .interp import elem
    known = [interp.known_items(a, st) for a in args[1:]]
    if all(k is not None for k in known):
        n = min(len(k) for k in known)
        return interp.alloc(st, ListS([("item", interp.call(args[0], [k[i] for k in known], {}, st, node))
                                       for i in range(n)]))
    if len(args) == 2:
        src, el = interp.iter_elem(args[1], st)
        v = interp.call(args[0], [el], {}, st, node)
        return interp.alloc(st, ListS([("map", src, elem(src), v, T.TRUE)]))
    return None


@special("filter")
def _filter(interp, name, args, kwargs, st, node):
    from .interp import elem
    src, el = interp.iter_elem(args[1], st)
    v = interp.call(args[0], [el], {}, st, node)
    return interp.alloc(st, ListS([("map", src, elem(src), el, T.truth(interp.tm(v, st)))]))


@special("next")
def _next(interp, name, args, kwargs, st, node):
    items = interp.known_items(args[0], st)
    if items:
        return items[0]
    return Val(T.call("next", *[interp.tm(a, st) for a in args]))


@special("iter")
def _iter(interp, name, args, kwargs, st, node):
    return args[0]


@special("dataclasses.replace")
def _replace(interp, name, args, kwargs, st, node):
    return do_replace(interp, args[0], kwargs, st, node)


def do_replace(interp, v, kwargs, st, node):
    v = interp.resolve(v, st)
    if isinstance(v, Ite):
        return interp.lift(v, st, lambda x, s: do_replace(interp, x, kwargs, s, node))
    if isinstance(v, Rec):
        kw = dict(kwargs)
        op = kw.pop("**", None)
        if op is not None:
            for f in v.fields:
                if f not in kw and f in [x[0] for x in v.cls.fields]:
                    kw[f] = Val(T.call("getopt", interp.tm(op, st), T.const(f), interp.tm(v.fields[f], st)))
        return interp.replace_record(v, kw, st, node)
    if isinstance(v, Ref):
        o = interp.hobj(st, v)
        if o.kind == "inst":
            fields = dict(o.attrs)
            fields.update(kwargs)
            return interp.alloc(st, InstS(o.cls, fields))
    return Val(T.call("replace", interp.tm(v, st), **{k: interp.tm(x, st) for k, x in kwargs.items() if k != "**"}))


@special("dataclasses.asdict")
def _asdict(interp, name, args, kwargs, st, node):
    v = args[0]
    if isinstance(v, Rec):
        return interp.alloc(st, DictS([("kv", T.const(f[0]), v.fields[f[0]]) for f in v.cls.fields]))
    return None


@special("inspect.signature")
def _signature(interp, name, args, kwargs, st, node):
    f = args[0]
    while isinstance(f, (Partial, Bound)):
        f = f.func
    if isinstance(f, Func):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in (a.vararg,) if x] \
            + [x.arg for x in a.kwonlyargs] + [x.arg for x in (a.kwarg,) if x]
        return Hooked("signature", None, {"names": names})
    return Val(T.call("inspect.signature", interp.tm(f, st)))


@special("numpy.isscalar")
def _isscalar(interp, name, args, kwargs, st, node):
    v = args[0]
    if isinstance(v, Tup):
        return Val(T.FALSE)
    if isinstance(v, Ref):
        return Val(T.FALSE)
    t = interp.tm(v, st)
    if t.op == "const" and t.args[1] is not None:
        return Val(T.TRUE)
    return Val(T.call("numpy.isscalar", t))


@special("numpy.vstack", "numpy.hstack", "numpy.concatenate", "numpy.append", "numpy.column_stack",
         "numpy.r_")
def _stack(interp, name, args, kwargs, st, node):
    tm = lambda v: interp.tm(v, st)  # noqa
    kwargs = dict(kwargs)
    if name == "numpy.append":
        parts = [tm(a) for a in args[:2]]
        axis = tm(args[2]) if len(args) > 2 else tm(kwargs["axis"]) if "axis" in kwargs else T.ZERO
    else:
        seq = args[0] if args else kwargs.get("tup", kwargs.get("arrays"))
        items = is_listlike(interp, seq, st)
        parts = [tm(x) for x in items] if items is not None else None
        axis = tm(args[1]) if len(args) > 1 else tm(kwargs["axis"]) if "axis" in kwargs else T.ZERO
        if parts is None:
            return fresh(interp, T.call(name, tm(seq), axis))
    if name == "numpy.vstack" or (name in ("numpy.concatenate", "numpy.append") and axis is T.ZERO) \
            or name == "numpy.hstack":
        op = "vstack" if name == "numpy.vstack" else ("hstack" if name == "numpy.hstack" else "concat0")
        flat = []
        for p in parts:
            if p.op == "call" and p.args[0] == op:
                flat += list(p.args[1])
            else:
                flat.append(p)
        return fresh(interp, T.call(op, *flat))
    return fresh(interp, T.call(name, T.mk("tuple", *parts), axis))


@special("numpy.array")
def _array(interp, name, args, kwargs, st, node):
    v = args[0]
    t = interp.tm(v, st)
    return fresh(interp, t)


@special("pandas.Series")
def _series(interp, name, args, kwargs, st, node):
    v = args[0] if args else kwargs.get("data")
    if isinstance(v, Ref) and interp.hobj(st, v).kind == "dict":
        return interp.alloc(st, interp.hobj(st, v))
    if "index" in kwargs and v is not None:
        items = interp.tm(v, st)
        idx = interp.tm(kwargs["index"], st)
        if items.op == "map" and items.args[0] is idx:
            src, var, body, cond = items.args
            return interp.alloc(st, DictS([("map", src, var, var, Val(body), cond)]))
        return Val(T.call("pandas.Series", items, idx))
    return None


@special("numpy.ndim")
def _ndim(interp, name, args, kwargs, st, node):
    t = interp.tm(args[0], st)
    if T.is_num(t):
        return Val(T.ZERO)
    return Val(T.mk("attr", t, "ndim"))


@special("numpy.shape")
def _shape(interp, name, args, kwargs, st, node):
    return Val(T.mk("attr", interp.tm(args[0], st), "shape"))


@special("numpy.size")
def _size(interp, name, args, kwargs, st, node):
    return Val(T.mk("attr", interp.tm(args[0], st), "size"))


@special("numpy.ceil", "numpy.floor")
def _ceil(interp, name, args, kwargs, st, node):
    import math
    t = interp.tm(args[0], st)
    if T.is_finite_num(t):
        f = math.ceil if name.endswith("ceil") else math.floor
        return Val(T.const(f(t.args[1])))
    return Val(T.call(name, t))


@special("numpy.nan_to_num")
def _nan_to_num(interp, name, args, kwargs, st, node):
    tm = lambda v: interp.tm(v, st)  # noqa
    names = ["x", "copy", "nan", "posinf", "neginf"]
    b = dict(zip(names, args))
    b.update(kwargs)
    t = T.call("numpy.nan_to_num", tm(b["x"]), **{k: tm(v) for k, v in b.items() if k not in ("x", "copy")})
    if "copy" in b and tm(b["copy"]) is T.FALSE and isinstance(b["x"], Val):
        interp.write_array(b["x"] if b["x"].locs else Val(b["x"].term, frozenset({"tmp?"})), Val(t), st, node)
        return Val(t, b["x"].locs)
    return fresh(interp, t)


@special("numpy.random.default_rng")
def _default_rng(interp, name, args, kwargs, st, node):
    ts = [interp.tm(a, st) for a in args] + [interp.tm(v, st) for v in kwargs.values()]
    t = T.call("rng", *(ts or [T.NONE]))
    interp.event("newrng", st, node, seed=ts[0] if ts else T.NONE, result=t)
    return Val(t)


@special("super")
def _super(interp, name, args, kwargs, st, node):
    return Val(T.call("super"))


@special("warnings.warn")
def _warn(interp, name, args, kwargs, st, node):
    interp.event("warn", st, node, args=tuple(interp.tm(a, st) for a in args))
    return Val(T.NONE)


@special("slice")
def _slice(interp, name, args, kwargs, st, node):
    ts = [interp.tm(a, st) for a in args]
    if len(ts) == 1:
        ts = [T.NONE, ts[0]]
    while len(ts) < 3:
        ts.append(T.NONE)
    return Val(T.mk("slice", *ts))


# ------------------------------------------------------------------- methods
FUNC_METHODS = {"clip": "numpy.clip", "reshape": "numpy.reshape", "ravel": "numpy.ravel",
                "squeeze": "numpy.squeeze", "transpose": "numpy.transpose", "dot": "numpy.matmul",
                "repeat": "numpy.repeat", "round": "numpy.round", "nonzero": "numpy.nonzero",
                "trace": "numpy.trace", "diagonal": "numpy.diagonal", "swapaxes": "numpy.swapaxes"}


def call_method(interp, recv, name, args, kwargs, st, node):
    recv = interp.resolve(recv, st)
    args = [interp.resolve(a, st) for a in args]
    kwargs = {k: interp.resolve(v, st) for k, v in kwargs.items()}
    if isinstance(recv, Ite):
        return interp.lift(recv, st, lambda r, s: call_method(interp, r, name, args, kwargs, s, node))
    tm = lambda v: interp.tm(v, st)  # noqa
    if isinstance(recv, Rec):
        if name == "_replace":
            return do_replace(interp, recv, kwargs, st, node)
        if name == "_asdict":
            return interp.alloc(st, DictS([("kv", T.const(f[0]), recv.fields[f[0]]) for f in recv.cls.fields]))
        return Val(T.call("." + name, tm(recv), *[tm(a) for a in args]))
    if isinstance(recv, Cls) and name == "_make":
        items = interp.known_items(args[0], st)
        if items is not None:
            return interp.construct(recv.info, items, {}, st, node)
    if isinstance(recv, Ref):
        o = interp.hobj(st, recv)
        if o.kind == "list":
            return list_method(interp, recv, o, name, args, kwargs, st, node)
        if o.kind == "dict":
            return dict_method(interp, recv, o, name, args, kwargs, st, node)
        if o.kind == "set":
            return set_method(interp, recv, o, name, args, kwargs, st, node)
    if isinstance(recv, Tup):
        if name in ("index", "count"):
            return Val(T.call("." + name, tm(recv), *[tm(a) for a in args]))
    t = tm(recv)
    if isinstance(recv, (Val, Tup)):
        if name in REDUCE:
            return reduce_call(interp, name, [recv] + args, kwargs, st, node)
        if name in FUNC_METHODS:
            if name in ("reshape", "transpose") and len(args) > 1:
                args = [Tup(args)]
            return call_ext(interp, FUNC_METHODS[name], [recv] + args, kwargs, st, node)
        if name == "flatten":
            return fresh(interp, T.call("numpy.ravel", t))
        if name == "copy":
            return fresh(interp, t)
        if name == "astype":
            a = args[0] if args else kwargs.get("dtype")
            an = a.name if isinstance(a, Ext) else (T.show(tm(a)) if a is not None else "")
            if "int" in an:
                return fresh(interp, T.call("int", t) if T.is_const(t) else t)
            if "bool" in an:
                return fresh(interp, T.truth(t) if T._boolish(T.truth(t)) and t.op != "attr" else T.call("asbool", t))
            return fresh(interp, t)
        if name in ("tolist", "item"):
            if args:
                return interp.getitem(recv, args[0], st, node)
            return Val(t)
        if name in ("fill", "sort", "put", "resize", "partition", "itemset"):
            new = T.call("." + name, t, *[tm(a) for a in args])
            interp.write_array(recv if recv.locs else Val(t, frozenset({"tmp?"})), Val(new), st, node)
            return Val(T.NONE)
        if name in ("items", "keys", "values", "get", "idxmin", "idxmax"):
            return dictterm_method(interp, recv, t, name, args, kwargs, st, node)
        if name in ("append", "extend", "insert", "pop", "update", "setdefault", "clear", "remove", "add",
                    "popitem"):
            interp.event("mutate", st, node, how=name, loc=None, target=t, locs=as_locs(recv),
                         args=tuple(tm(a) for a in args))
            return Val(interp.ev_term("." + name, t, *[tm(a) for a in args]))
        from .interp import RNG_METHODS
        if name in RNG_METHODS:
            r = interp.ev_term("rng." + name, t, *([tm(a) for a in args] + [
                T.mk("kw", k, tm(v)) for k, v in sorted(kwargs.items())]))
            interp.event("rng", st, node, rng=t, method=name, args=tuple(tm(a) for a in args),
                         kwargs={k: tm(v) for k, v in kwargs.items()}, result=r)
            return fresh(interp, r)
    if isinstance(recv, (Component, Hooked, Func, Partial)):
        return interp.opaque_call(Method(recv, name), args, kwargs, st, node)
    if t.op == "const" and isinstance(t.args[1], str):
        return Val(T.call("." + name, t, *[tm(a) for a in args]))
    if any(isinstance(v, (Func, Partial, Bound)) for v in list(args) + list(kwargs.values())):
        callbacks(interp, args, kwargs, st, node)
    h = interp.hooks.get("method:" + name)
    if h is not None:
        r = h(interp, st, recv, args, kwargs, node)
        if r is not None:
            return r
    if t.op == "attr" or t.op == "sym" or t.op == "ev":
        # method of an unknown object: may have effects
        return interp.opaque_call(Method(recv, name), args, kwargs, st, node)
    return Val(T.call("." + name, t, *[tm(a) for a in args], **{k: tm(v) for k, v in kwargs.items()}))


def list_method(interp, recv, o, name, args, kwargs, st, node):
    tm = lambda v: interp.tm(v, st)  # noqa
    if name in ("append", "extend", "insert", "pop", "clear", "remove", "sort", "reverse"):
        return interp.container_mutation(recv, name, args, kwargs, st, node)
    if name == "copy":
        return interp.alloc(st, o)
    if name in REDUCE:
        return reduce_call(interp, name, [recv] + args, kwargs, st, node)
    if name in ("items", "keys", "values", "get", "idxmin", "idxmax"):
        return dictterm_method(interp, recv, tm(recv), name, args, kwargs, st, node)
    return Val(T.call("." + name, tm(recv), *[tm(a) for a in args]))


def set_method(interp, recv, o, name, args, kwargs, st, node):
    tm = lambda v: interp.tm(v, st)  # noqa
    if name in ("add", "discard", "remove", "update"):
        return interp.container_mutation(recv, name, args, kwargs, st, node)
    if name == "difference" and len(args) == 1:
        r = interp.set_minus(recv, args[0], st)
        if r is not None:
            return r
    return interp.alloc(st, SetS(T.call("set" + name, o.term, *[tm(a) for a in args])))


def dict_method(interp, recv, o, name, args, kwargs, st, node):
    from .interp import elem, item
    tm = lambda v: interp.tm(v, st)  # noqa
    if name in ("update", "setdefault", "pop", "clear"):
        return interp.container_mutation(recv, name, args, kwargs, st, node)
    if name == "copy":
        return interp.alloc(st, o)
    if name == "get":
        d = args[1] if len(args) > 1 else Val(T.NONE)
        return interp.dict_get(o, tm(args[0]), st, node, recv, default=d)
    allkv = all(p[0] == "kv" for p in o.parts) and not any(_has_undef(p[2]) for p in o.parts)
    if name == "items":
        if allkv:
            return Tup([Tup([Val(p[1]), p[2]]) for p in o.parts])
        if len(o.parts) == 1 and o.parts[0][0] == "map":
            p = o.parts[0]
            src, var = p[1], p[2]
            if p[5] is not T.TRUE:
                src2 = T.mk("map", src, var, var, p[5])
                e2 = elem(src2)
                return Hooked("iter", None, {"src": src2, "elem": Tup([
                    Val(T.subst(p[3], {var: e2})), interp.subst_val(p[4], {var: e2}, st)])})
            return Hooked("iter", None, {"src": src, "elem": Tup([Val(p[3]), p[4]])})
        t = tm(recv)
        return dictterm_method(interp, Val(t), t, name, args, kwargs, st, node)
    if name == "keys":
        if allkv:
            return Tup([Val(p[1]) for p in o.parts])
        src, el = interp.iter_elem(recv, st)
        return _maplist(interp, st, src, el)
    if name == "values":
        if allkv:
            return interp.alloc(st, ListS([("item", p[2]) for p in o.parts]))
        if len(o.parts) == 1 and o.parts[0][0] == "map":
            p = o.parts[0]
            return interp.alloc(st, ListS([("map", p[1], p[2], p[4], p[5])]))
        t = tm(recv)
        return dictterm_method(interp, Val(t), t, name, args, kwargs, st, node)
    if name in ("idxmin", "idxmax"):
        return Val(T.call("argminkey" if name == "idxmin" else "argmaxkey", tm(recv)))
    if name in ("min", "max"):
        vals = dict_method(interp, recv, o, "values", [], {}, st, node)
        return _bmin(interp, name, [vals], {}, st, node)
    return Val(T.call("." + name, tm(recv), *[tm(a) for a in args]))


def dictterm_method(interp, recv, t, name, args, kwargs, st, node):
    from .interp import elem, item
    tm = lambda v: interp.tm(v, st)  # noqa
    if t.op == "dmap":
        src, var, key, body, cond = t.args
        if name == "items":
            if cond is not T.TRUE:
                src2 = T.mk("map", src, var, var, cond)
                e2 = elem(src2)
                return Hooked("iter", None, {"src": src2, "elem": Tup([
                    Val(T.subst(key, {var: e2})), Val(T.subst(body, {var: e2}))])})
            return Hooked("iter", None, {"src": src, "elem": Tup([Val(key), Val(body)])})
        if name == "keys":
            return Val(dmap_keys(t))
        if name == "values":
            return Val(dmap_values(t))
        if name == "get":
            return Val(item(t, tm(args[0])))
    if t.op == "ite" and name in ("items", "keys", "values"):
        pass
    keys = T.call("keys", t)
    if name == "items":
        e = elem(keys)
        return Hooked("iter", None, {"src": keys, "elem": Tup([Val(e), Val(item(t, e), as_locs(recv))])})
    if name == "keys":
        return Val(keys)
    if name == "values":
        return Val(T.mk("map", keys, elem(keys), item(t, elem(keys)), T.TRUE), as_locs(recv))
    if name in ("idxmin", "idxmax"):
        return Val(T.call("argminkey" if name == "idxmin" else "argmaxkey", t))
    if name == "get":
        d = tm(args[1]) if len(args) > 1 else T.NONE
        return Val(T.call("getopt", t, tm(args[0]), d))
    return Val(T.call("." + name, t))
