"""Abstract values of the value-flow analysis."""
from . import terms as T


class Value:
    __slots__ = ()


class Val(Value):
    """Scalar or array described by a term; `locs` are possible storage owners."""

    __slots__ = ("term", "locs")

    def __init__(self, term, locs=frozenset()):
        self.term = term
        self.locs = locs

    def __repr__(self):
        return f"Val({self.term})"


class Rec(Value):
    """Instance of a NamedTuple or of a frozen dataclass."""

    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields

    def __repr__(self):
        return f"{self.cls.name}({self.fields})"


class Tup(Value):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"Tup{self.items}"


class Func(Value):
    __slots__ = ("name", "node", "module", "envs", "defaults", "kwdefaults", "qual", "cls")

    def __init__(self, name, node, module, envs, defaults, kwdefaults, qual, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.envs = envs
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.cls = cls

    def __repr__(self):
        return f"<func {self.qual}>"


class Partial(Value):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, list(args), dict(kwargs)

    def __repr__(self):
        return f"partial({self.func})"


class Bound(Value):
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Ref(Value):
    """Reference to a mutable heap object."""

    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return f"Ref({self.loc})"


class Cls(Value):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info


class Mod(Value):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Ext(Value):
    """A name of an external library or builtin, fully qualified."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


class Method(Value):
    """Unresolved method of a plain value or container."""

    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Ite(Value):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"Ite({self.cond}, {self.a}, {self.b})"


class Component(Value):
    """Result of selecting an interchangeable component."""

    __slots__ = ("label", "registry", "selected", "default_options", "user_options", "extra")

    def __init__(self, label, registry, selected, default_options, user_options, extra=None):
        self.label = label
        self.registry = registry
        self.selected = selected
        self.default_options = default_options
        self.user_options = user_options
        self.extra = extra or {}

    def __repr__(self):
        return f"<component {self.label}>"


class Hooked(Value):
    """A callable value whose behaviour is given by the analysis (a role)."""

    __slots__ = ("name", "fn", "data")

    def __init__(self, name, fn, data=None):
        self.name, self.fn, self.data = name, fn, data or {}

    def __repr__(self):
        return f"<role {self.name}>"


class _Undef(Value):
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


# --------------------------------------------------------------- heap objects
class ListS:
    """List contents: parts are ('item', Value) | ('map', src, var, Value, cond) |
    ('splice', Term) | ('opt', cond, parts)."""

    __slots__ = ("parts",)
    kind = "list"

    def __init__(self, parts):
        self.parts = tuple(parts)

    def items(self):
        if all(p[0] == "item" for p in self.parts):
            return [p[1] for p in self.parts]
        return None


class DictS:
    """Dict contents: parts ('kv', keyterm, Value) | ('map', src, var, keyterm, Value, cond)
    | ('splice', Term)."""

    __slots__ = ("parts", "obj")
    kind = "dict"

    def __init__(self, parts):
        self.parts = tuple(parts)

    def known(self):
        if all(p[0] == "kv" and T.is_const(p[1]) for p in self.parts):
            return {T.cval(p[1]): p[2] for p in self.parts}
        return None


class SetS:
    __slots__ = ("term",)
    kind = "set"

    def __init__(self, term):
        self.term = term


class InstS:
    __slots__ = ("cls", "attrs")
    kind = "inst"

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class ClassInfo:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.qual = f"{module}.{name}"
        self.kind = "plain"
        self.fields = []  # (name, annotation node, default node or None)
        self.methods = {}
        self.props = set()
        self.statics = {}
        self.frozen = False
        self.bases = []

    def __repr__(self):
        return f"<class {self.qual}>"


def vterm(v, st=None, _d=0):
    """Term describing a value."""
    if isinstance(v, Val):
        return v.term
    if _d > 12:
        return T.mk("deep")
    if isinstance(v, Tup):
        return T.mk("tuple", *[vterm(x, st, _d + 1) for x in v.items])
    if isinstance(v, Rec):
        return T.mk(
            "rec",
            v.cls.name,
            tuple((k, vterm(x, st, _d + 1)) for k, x in v.fields.items()),
        )
    if isinstance(v, Ite):
        return T.ite(v.cond, vterm(v.a, st, _d + 1), vterm(v.b, st, _d + 1))
    if v is UNDEF:
        return T.mk("undef")
    if isinstance(v, Func):
        return T.mk("func", v.qual, v.node.lineno)
    if isinstance(v, Partial):
        return T.mk(
            "partial",
            vterm(v.func, st, _d + 1),
            tuple(vterm(x, st, _d + 1) for x in v.args),
            tuple(sorted((k, vterm(x, st, _d + 1)) for k, x in v.kwargs.items())),
        )
    if isinstance(v, Bound):
        return T.mk("bound", vterm(v.func, st, _d + 1), vterm(v.self_, st, _d + 1))
    if isinstance(v, Cls):
        return T.mk("class", v.info.qual)
    if isinstance(v, Mod):
        return T.mk("module", v.name)
    if isinstance(v, Ext):
        return T.mk("ext", v.name)
    if isinstance(v, Method):
        return T.mk("method", vterm(v.recv, st, _d + 1), v.name)
    if isinstance(v, Component):
        return T.mk("component", v.label)
    if isinstance(v, Hooked):
        return T.mk("role", v.name)
    if isinstance(v, Ref):
        if st is None:
            return T.mk("ref", v.loc)
        o = st.heap.get(v.loc)
        return obj_term(o, st, v.loc, _d)
    raise TypeError(type(v))


def obj_term(o, st, loc, _d=0):
    if o is None:
        return T.mk("ref", loc)
    if o.kind == "list":
        if len(o.parts) == 1 and o.parts[0][0] == "splice":
            return o.parts[0][1]
        if all(p[0] == "item" for p in o.parts):
            return T.mk("list", *[vterm(p[1], st, _d + 1) for p in o.parts])
        ts = []
        for p in o.parts:
            if p[0] == "item":
                ts.append(T.mk("list", vterm(p[1], st, _d + 1)))
            elif p[0] == "map":
                ts.append(map_term(p[1], p[2], vterm(p[3], st, _d + 1), p[4]))
            elif p[0] == "splice":
                ts.append(p[1])
            elif p[0] == "opt":
                ts.append(
                    T.ite(p[1], obj_term(ListS(p[2]), st, loc, _d + 1), T.mk("list"))
                )
        return ts[0] if len(ts) == 1 else T.mk("concatlist", *ts)
    if o.kind == "dict":
        if len(o.parts) == 1 and o.parts[0][0] == "splice":
            return o.parts[0][1]
        ts = []
        for p in o.parts:
            if p[0] == "kv":
                ts.append(T.mk("kv", p[1], vterm(p[2], st, _d + 1)))
            elif p[0] == "map":
                ts.append(T.mk("dmap", p[1], p[2], p[3], vterm(p[4], st, _d + 1), p[5]))
            else:
                ts.append(p[1])
        if len(ts) == 1 and ts[0].op == "dmap":
            return ts[0]
        return T.mk("dict", *ts)
    if o.kind == "set":
        return o.term
    if o.kind == "inst":
        return T.mk("ref", loc)
    return T.mk("ref", loc)


def map_term(src, var, body, cond):
    if cond is T.TRUE and body is var:
        return src
    return T.mk("map", src, var, body, cond)
