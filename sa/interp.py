"""Interprocedural value-flow (gated SSA) analysis of the package source.

Nothing of the analysed program is executed: the abstract interpreter walks the
syntax tree, merges states at control-flow joins with gated (if-then-else)
values, summarises loops by header values found by an optimistic fixpoint and
inlines calls inside the package.
"""
import ast

from . import terms as T
from .project import PKG, Broken
from .values import (
    UNDEF, Bound, ClassInfo, Cls, Component, DictS, Ext, Func, Hooked, InstS, Ite,
    ListS, Method, Mod, Partial, Rec, Ref, SetS, Tup, Val, Value, map_term, vterm,
)

MAXDEPTH = 40
MAXUNROLL = 24


class State:
    __slots__ = ("envs", "heap", "facts", "pc", "dead")

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.facts = {}
        self.pc = T.TRUE
        self.dead = False

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.pc = self.pc
        return s

    def take(self, o):
        self.envs, self.heap, self.facts, self.pc = o.envs, o.heap, o.facts, o.pc
        self.dead = False

    def assume(self, c, val):
        T.split_fact(c, val, self.facts)
        self.pc = T.tand(self.pc, c if val else T.tnot(c))


class Event:
    __slots__ = ("kind", "id", "data", "guard", "node", "module", "func", "stack", "loops", "facts")

    def __repr__(self):
        return f"<{self.kind}#{self.id} {self.data}>"


class Frame:
    __slots__ = ("func", "module", "env", "envs", "returns", "loops", "outer", "trystack", "node",
                 "locals", "globals", "keepenv")


class LoopInfo:
    def __init__(self, id_, node, module, func):
        self.id = id_
        self.node = node
        self.module = module
        self.func = func
        self.header = {}  # path -> (init value, phi value, back value)
        self.iter = None
        self.test = None
        self.breaks = []  # (guard, state)
        self.back_guard = None
        self.has_back = False
        self.events = (0, 0)
        self.kind = None
        self.parent = None
        self.back = None
        self.head = None


class LoopFrame:
    def __init__(self):
        self.breaks = []
        self.continues = []


class Interp:
    def __init__(self, project, hooks=None, comp_call=None):
        self.p = project
        self.hooks = hooks or {}
        self.comp_call = comp_call
        self.classes = {}
        self.globals = {}
        self.events = []
        self.risk = 0
        self.issues = []
        self.frames = []
        self.nev = 0
        self.nloc = 0
        self.nenv = 0
        self.nloop = 0
        self.loops = {}
        self.per_element = {}  # objects created anew for every element of a map
        self.loopstack = []
        self.issue_keys = set()
        self.analysed = set()
        self.callsites = 0
        self.argflow = []
        self.on_undef = None
        self.depth_hit = False

    # ------------------------------------------------------------------ misc
    def issue(self, kind, node, msg, st=None):
        fr = self.frames[-1] if self.frames else None
        mod = fr.module if fr else "?"
        func = fr.func if fr else "?"
        guard = self.guard(st) if st is not None else T.TRUE
        self.issues.append((kind, mod, func, getattr(node, "lineno", 0), msg, guard))

    def guard(self, st):
        ps = [f.outer for f in self.frames if f.outer is not None]
        return T.tand(*(ps + [st.pc]))

    def event(self, kind, st, node, **data):
        e = Event()
        e.kind = kind
        self.nev += 1
        e.id = self.nev
        e.data = data
        e.guard = self.guard(st)
        e.facts = dict(st.facts)
        e.node = node
        fr = self.frames[-1] if self.frames else None
        e.module = fr.module if fr else "?"
        e.func = fr.func if fr else "?"
        e.stack = tuple(f.func for f in self.frames)
        e.loops = tuple(self.loopstack)
        self.events.append(e)
        return e

    def ev_term(self, label, *args):
        self.nev += 1
        return T.mk("ev", self.nev, label, tuple(args))

    def newloc(self, prefix="o"):
        self.nloc += 1
        return f"{prefix}{self.nloc}"

    def alloc(self, st, obj):
        loc = self.newloc()
        st.heap[loc] = obj
        return Ref(loc)

    def where(self, node):
        fr = self.frames[-1] if self.frames else None
        if not fr:
            return "?"
        return f"{self.p.rel(fr.module)}:{getattr(node, 'lineno', 0)} in {fr.func}"

    def tm(self, v, st):
        return vterm(v, st)

    # --------------------------------------------------------------- globals
    def class_info(self, module, node):
        qual = f"{module}.{node.name}"
        if qual in self.classes:
            return self.classes[qual]
        ci = ClassInfo(node.name, module, node)
        self.classes[qual] = ci
        for d in node.decorator_list:
            dn = d.func if isinstance(d, ast.Call) else d
            name = dn.id if isinstance(dn, ast.Name) else getattr(dn, "attr", "")
            if name == "dataclass":
                ci.kind = "dataclass"
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == "frozen" and isinstance(k.value, ast.Constant):
                            ci.frozen = bool(k.value.value)
        for b in node.bases:
            bn = b.id if isinstance(b, ast.Name) else getattr(b, "attr", "")
            ci.bases.append(bn)
            if bn == "NamedTuple":
                ci.kind = "namedtuple"
                ci.frozen = True
            else:
                base = self.p.lookup_def(f"{module}.{bn}")
                if base and isinstance(base[1], ast.ClassDef):
                    bi = self.class_info(base[0].name, base[1])
                    ci.methods.update(bi.methods)
                    ci.props |= bi.props
                    ci.fields = list(bi.fields)
                    if bi.kind != "plain" and ci.kind == "plain":
                        ci.kind = bi.kind
        for s in node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                ci.fields = [f for f in ci.fields if f[0] != s.target.id]
                ci.fields.append((s.target.id, s.annotation, s.value))
            elif isinstance(s, ast.FunctionDef):
                f = Func(f"{node.name}.{s.name}", s, module, (), None, None, f"{qual}.{s.name}", ci)
                ci.methods[s.name] = f
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        ci.props.add(s.name)
                    if isinstance(d, ast.Attribute) and d.attr in ("cached_property",):
                        ci.props.add(s.name)
                    if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                        ci.statics[s.name] = d.id
            elif isinstance(s, ast.Assign):
                for tg in s.targets:
                    if isinstance(tg, ast.Name):
                        ci.statics[tg.id] = s.value
        return ci

    def find_class(self, name):
        """Unique class with this simple name in the package."""
        hits = []
        for m in self.p.modules.values():
            d = m.defs.get(name)
            if d and d[0] == "def" and isinstance(d[1], ast.ClassDef):
                hits.append(self.class_info(m.name, d[1]))
        if len(hits) != 1:
            raise Broken(f"class {name}: found {len(hits)} definitions in the package")
        return hits[0]

    def find_func(self, name, module=None):
        hits = []
        for m in self.p.modules.values():
            if (module and m.name != module) or (not module and m.name == "oracle"):
                continue
            d = m.defs.get(name)
            if d and d[0] == "def" and isinstance(d[1], ast.FunctionDef):
                hits.append((m, d[1]))
        if len(hits) != 1:
            raise Broken(f"function {name}: found {len(hits)} definitions in the package")
        return self.global_value(hits[0][0].name, name)

    def global_value(self, module, name, st=None):
        key = (module, name)
        if key in self.globals:
            return self.globals[key]
        m = self.p.modules.get(module)
        if m is None:
            return None
        d = m.defs.get(name)
        if d is None:
            sub = f"{module}.{name}"
            if sub in self.p.modules:
                return Mod(sub)
            return None
        v = None
        if d[0] == "def":
            node = d[1]
            if isinstance(node, ast.ClassDef):
                v = Cls(self.class_info(module, node))
            else:
                v = Func(name, node, module, (), None, None, f"{module}.{name}")
                self.globals[key] = v
                v = self.decorate(v, node, module)
        elif d[0] == "import":
            v = self.import_name(d[1])
        elif d[0] == "from":
            base, n = d[1], d[2]
            if base == PKG or base.startswith(PKG + "."):
                if base in self.p.modules:
                    v = self.global_value(base, n)
                if v is None and f"{base}.{n}" in self.p.modules:
                    v = Mod(f"{base}.{n}")
                if v is None:
                    self.issues.append(
                        ("import", module, "<module>", 0, f"cannot import {n} from {base}", T.TRUE)
                    )
                    v = Val(T.sym(f"?import {base}.{n}"))
            else:
                v = Ext(normext(f"{base}.{n}"))
        elif d[0] == "assign":
            self.globals[key] = Val(T.sym(f"global {module}.{name}"))
            s2 = State()
            fr = self._frame("<module>", module, s2, d[1])
            self.frames.append(fr)
            try:
                val = self.ev(d[1].value, s2) if d[1].value is not None else UNDEF
                if isinstance(val, Ref):
                    # module level containers: treat content as constant
                    v = self._freeze(val, s2)
                else:
                    v = val
                if isinstance(d[1], ast.Assign) and not isinstance(d[1].targets[0], ast.Name):
                    v = Val(T.sym(f"global {module}.{name}"))
            finally:
                self.frames.pop()
        self.globals[key] = v
        return v

    def _freeze(self, ref, st):
        loc = "g" + ref.loc
        self.global_heap = getattr(self, "global_heap", {})
        self.global_heap[loc] = st.heap[ref.loc]
        return Ref(loc)

    def hobj(self, st, ref):
        o = st.heap.get(ref.loc)
        if o is None:
            o = getattr(self, "global_heap", {}).get(ref.loc)
        return o

    def import_name(self, dotted):
        if dotted == PKG or dotted.startswith(PKG + "."):
            return Mod(dotted)
        return Ext(normext(dotted))

    def _frame(self, func, module, st, node, envs=()):
        fr = Frame()
        fr.func = func
        fr.module = module
        self.nenv += 1
        fr.env = self.nenv
        st.envs[fr.env] = {}
        fr.envs = envs
        fr.returns = []
        fr.loops = []
        fr.outer = None
        fr.trystack = []
        fr.node = node
        fr.locals = _local_names(node) if isinstance(node, (ast.FunctionDef, ast.Lambda)) else None
        fr.globals = set()
        fr.keepenv = False
        return fr

    def decorate(self, fv, node, module, st=None):
        """Apply decorators; numba.njit and functools.wraps keep the function."""
        v = fv
        for d in reversed(node.decorator_list):
            s2 = st or State()
            try:
                if st is None:
                    self.frames.append(self._frame("<module>", module, s2, node))
                dv = self.ev(d, s2)
            finally:
                if st is None:
                    self.frames.pop()
            if isinstance(dv, Ext) or (isinstance(dv, Val)) or isinstance(dv, Partial):
                continue
            if isinstance(dv, Func) and not isinstance(dv.node, ast.Lambda):
                s3 = st or State()
                if st is None:
                    self.frames.append(self._frame("<module>", module, s3, node))
                try:
                    r = self.call(dv, [v], {}, s3, d)
                finally:
                    if st is None:
                        self.frames.pop()
                if isinstance(r, (Func, Partial)):
                    v = r
        return v

    # ---------------------------------------------------------------- merging
    def merge_val(self, c, a, b, st=None):
        if a is b:
            return a
        if isinstance(a, Val) and isinstance(b, Val):
            if a.term is b.term and a.locs == b.locs:
                return a
            return Val(T.ite(c, a.term, b.term), a.locs | b.locs)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
            return a
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls is b.cls:
            if set(a.fields) == set(b.fields):
                return Rec(a.cls, {k: self.merge_val(c, a.fields[k], b.fields[k]) for k in a.fields})
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node and a.envs == b.envs:
            return a
        if isinstance(a, Cls) and isinstance(b, Cls) and a.info is b.info:
            return a
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name:
            return a
        if isinstance(a, Mod) and isinstance(b, Mod) and a.name == b.name:
            return a
        if isinstance(a, Method) and isinstance(b, Method) and a.name == b.name:
            if isinstance(a.recv, Ref) and isinstance(b.recv, Ref) and a.recv.loc == b.recv.loc:
                return a
        if isinstance(a, Component) and isinstance(b, Component) and a.label == b.label:
            return a
        if isinstance(a, Hooked) and isinstance(b, Hooked) and a.name == b.name:
            return a
        if isinstance(a, Partial) and isinstance(b, Partial) and len(a.args) == len(b.args) \
                and set(a.kwargs) == set(b.kwargs):
            f = self.merge_val(c, a.func, b.func)
            if not isinstance(f, Ite):
                return Partial(f, [self.merge_val(c, x, y) for x, y in zip(a.args, b.args)],
                               {k: self.merge_val(c, a.kwargs[k], b.kwargs[k]) for k in a.kwargs})
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func:
            return Bound(a.func, self.merge_val(c, a.self_, b.self_))
        c = T.truth(c)
        if c is T.TRUE:
            return a
        if c is T.FALSE:
            return b
        return Ite(c, a, b)

    def merge_obj(self, c, a, b, st):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if a.kind != b.kind:
            return a
        if a.kind == "list":
            if _same_parts(a.parts, b.parts):
                return a
            n = 0
            while n < min(len(a.parts), len(b.parts)) and _same_part(a.parts[n], b.parts[n]):
                n += 1
            pre, ra, rb = a.parts[:n], a.parts[n:], b.parts[n:]
            if len(ra) == len(rb) and all(p[0] == "item" for p in ra + rb):
                return ListS(pre + tuple(
                    ("item", self.merge_val(c, x[1], y[1])) for x, y in zip(ra, rb)))
            out = list(pre)
            if ra and not rb:
                out.append(("opt", c, ra))
            elif rb and not ra:
                out.append(("opt", T.tnot(c), rb))
            else:
                out.append(("splice", T.ite(c, vterm_obj(ListS(ra), st), vterm_obj(ListS(rb), st))))
            return ListS(out)
        if a.kind == "dict":
            if _same_parts(a.parts, b.parts):
                return a
            ka = {p[1]: p for p in a.parts if p[0] == "kv"}
            kb = {p[1]: p for p in b.parts if p[0] == "kv"}
            if len(ka) == len(a.parts) and len(kb) == len(b.parts):
                out = []
                for k in list(ka) + [k for k in kb if k not in ka]:
                    va = ka[k][2] if k in ka else UNDEF
                    vb = kb[k][2] if k in kb else UNDEF
                    out.append(("kv", k, self.merge_val(c, va, vb)))
                return DictS(out)
            n = 0
            while n < min(len(a.parts), len(b.parts)) and _same_part(a.parts[n], b.parts[n]):
                n += 1
            pre, ra, rb = a.parts[:n], a.parts[n:], b.parts[n:]
            return DictS(pre + (("splice", T.mk("dictite", c, vterm_obj(DictS(ra), st), vterm_obj(DictS(rb), st))),))
        if a.kind == "set":
            return a if a.term is b.term else SetS(T.ite(c, a.term, b.term))
        if a.kind == "inst":
            attrs = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                va, vb = a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)
                attrs[k] = self.merge_val(c, va, vb)
            return InstS(a.cls, attrs)
        return a

    def merge2(self, c, a, b, pc=None):
        """Merged state: a when c else b."""
        s = State()
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        for k in a.envs:
            if k not in b.envs:
                s.envs[k] = a.envs[k]
                continue
            ea, eb = a.envs[k], b.envs[k]
            e = {}
            for n in list(ea) + [n for n in eb if n not in ea]:
                va, vb = ea.get(n, UNDEF), eb.get(n, UNDEF)
                e[n] = va if va is vb else self.merge_val(c, va, vb)
            s.envs[k] = e
        for k in b.envs:
            if k not in a.envs:
                s.envs[k] = b.envs[k]
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            oa, ob = a.heap.get(k), b.heap.get(k)
            s.heap[k] = oa if oa is ob else self.merge_obj(c, oa, ob, a)
        s.pc = pc if pc is not None else T.tor(a.pc, b.pc)
        return s

    def branch(self, c, st, fa, fb):
        """Run fa under c and fb under not c; st becomes the merged state.

        fa / fb take a state and return (alive, value).  Returns (alive, value)."""
        c = T.truth(c)
        r = T.decide(c, st.facts)
        if r is True:
            return fa(st)
        if r is False:
            return fb(st)
        pc0 = st.pc
        sa, sb = st.copy(), st.copy()
        sa.assume(c, True)
        sb.assume(c, False)
        pa, pb = sa.pc, sb.pc
        la, va = fa(sa)
        lb, vb = fb(sb)
        if la and lb:
            pc = pc0 if (sa.pc is pa and sb.pc is pb) else None
            st.take(self.merge2(c, sa, sb, pc))
            return True, (self.merge_val(c, va, vb) if va is not None or vb is not None else None)
        if la:
            st.take(sa)
            return True, va
        if lb:
            st.take(sb)
            return True, vb
        st.take(sa)
        return False, None

    def resolve(self, v, st):
        while isinstance(v, Ite):
            r = T.decide(v.cond, st.facts)
            if r is True:
                v = v.a
            elif r is False:
                v = v.b
            else:
                return v
        if isinstance(v, Val) and v.term.op == "ite":
            t = v.term
            while t.op == "ite":
                r = T.decide(t.args[0], st.facts)
                if r is True:
                    t = t.args[1]
                elif r is False:
                    t = t.args[2]
                else:
                    break
            if t is not v.term:
                return Val(t, v.locs)
        return v

    def lift(self, v, st, fn):
        """Apply fn to the alternatives of an Ite value under the matching facts."""
        v = self.resolve(v, st)
        if not isinstance(v, Ite):
            return fn(v, st)
        if v.a is UNDEF and v.b is not UNDEF:
            return self.lift(v.b, st, fn)
        if v.b is UNDEF and v.a is not UNDEF:
            return self.lift(v.a, st, fn)
        _, out = self.branch(
            v.cond, st,
            lambda s: (True, self.lift(v.a, s, fn)),
            lambda s: (True, self.lift(v.b, s, fn)),
        )
        return out

    # ------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if not self.stmt(s, st):
                return False
        return True

    def stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.issue("unsupported", n, f"statement {type(n).__name__}", st)
            return True
        return m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return True
        self.ev(n.value, st)
        return not st.dead

    def s_Pass(self, n, st):
        return True

    def s_Import(self, n, st):
        fr = self.frames[-1]
        for a in n.names:
            if a.asname:
                st.envs[fr.env][a.asname] = self.import_name(a.name)
            else:
                top = a.name.split(".")[0]
                st.envs[fr.env][top] = self.import_name(top)
        return True

    def s_ImportFrom(self, n, st):
        fr = self.frames[-1]
        base = n.module or ""
        for a in n.names:
            if base == PKG or base.startswith(PKG + "."):
                v = self.global_value(base, a.name) or Val(T.sym(f"?import {base}.{a.name}"))
            else:
                v = Ext(normext(f"{base}.{a.name}"))
            st.envs[fr.env][a.asname or a.name] = v
        return True

    def s_FunctionDef(self, n, st):
        fr = self.frames[-1]
        fr.keepenv = True
        v = self.make_func(n, st)
        v = self.decorate(v, n, fr.module, st)
        self.assign_name(n.name, v, st)
        return True

    def make_func(self, n, st, name=None):
        fr = self.frames[-1]
        fr.keepenv = True
        a = n.args
        defaults = [self.ev(d, st) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, st)
        nm = name or getattr(n, "name", "<lambda>")
        return Func(nm, n, fr.module, (fr.env,) + tuple(fr.envs), defaults, kwd,
                    f"{fr.module}.{fr.func}.<locals>.{nm}" if fr.func != "<module>" else f"{fr.module}.{nm}")

    def s_ClassDef(self, n, st):
        ci = self.class_info(self.frames[-1].module + ".<local>", n)
        self.assign_name(n.name, Cls(ci), st)
        return True

    def s_Global(self, n, st):
        self.frames[-1].globals |= set(n.names)
        self.event("global", st, n, names=tuple(n.names))
        return True

    s_Nonlocal = s_Global

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.envs[self.frames[-1].env].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                idx = self.ev(t.slice, st)
                self.container_mutation(base, "del", [idx], {}, st, n)
        return True

    def s_Return(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else Val(T.NONE)
        if st.dead:
            return False
        self.frames[-1].returns.append((st.copy(), v, n))
        return False

    def s_Raise(self, n, st):
        exc = None
        if n.exc is not None:
            exc = self.ev(n.exc, st)
        self.raise_(st, n, exc)
        return False

    def raise_(self, st, node, exc):
        name = "?"
        t = self.tm(exc, st) if exc is not None else None
        if t is not None:
            x = t
            if x.op == "call":
                name = x.args[0]
            elif x.op == "ext":
                name = x.args[0]
            else:
                name = T.show(x)
        e = self.event("raise", st, node, exc=name, term=t)
        for fr in reversed(self.frames):
            if fr.trystack:
                fr.trystack[-1].append((st.copy(), e))
                break

    def s_Assert(self, n, st):
        c = T.truth(self.tm(self.ev(n.test, st), st))
        r = T.decide(c, st.facts)
        if r is False:
            self.raise_(st, n, Val(T.call("AssertionError")))
            return False
        if r is None:
            s2 = st.copy()
            s2.assume(c, False)
            self.raise_(s2, n, Val(T.call("AssertionError")))
            st.assume(c, True)
        return True

    def s_If(self, n, st):
        c = T.truth(self.tm(self.ev(n.test, st), st))
        alive, _ = self.branch(
            c, st,
            lambda s: (self.block(n.body, s), None),
            lambda s: (self.block(n.orelse, s), None),
        )
        return alive

    def s_With(self, n, st):
        for i in n.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, Val(T.call("enter", self.tm(v, st))), st)
        return self.block(n.body, st)

    def s_Try(self, n, st):
        fr = self.frames[-1]
        s0 = st.copy()
        fr.trystack.append([])
        nev0 = len(self.events)
        risk, nis, nret = self.risk, len(self.issues), len(fr.returns)
        alive = self.block(n.body, st)
        raised = fr.trystack.pop()
        # lookups that succeed raise no KeyError
        total = self.risk == risk and not any(isinstance(x, (ast.Call, ast.Raise, ast.Delete)) for b in n.body for x in ast.walk(b))
        ncalls = [e for e in self.events[nev0:] if e.kind in ("component", "criterion", "opaque", "evaluate")]
        key = next((h for h in n.handlers if _exc_name(h) in ("KeyError", "LookupError", "Exception")), None)
        if key is not None and len(n.body) == 1 and isinstance(n.body[0], (ast.Return, ast.Assign, ast.Expr)) and \
                any(q[0] == "key" and q[4].endswith("is missing") for q in self.issues[nis:]) and \
                not any(isinstance(x, (ast.Call, ast.IfExp, ast.BoolOp, ast.comprehension, ast.Lambda)) for x in ast.walk(n.body[0])):
            # the lookup fails for sure: only the handler goes on
            del self.issues[nis:], fr.returns[nret:]
            st.take(s0)
            if key.name:
                st.envs[fr.env][key.name] = Val(T.mk("excvalue", self.ev_term("try", T.const(n.lineno)), 0))
            if not self.block(key.body, st):
                return False
            return self.block(n.finalbody, st) if n.finalbody else True
        if alive and n.orelse:
            alive = self.block(n.orelse, st)
        exits = []
        if alive:
            exits.append((st.copy(), None))
        tid = self.ev_term("try", T.const(getattr(n, "lineno", 0)))
        for i, h in enumerate(n.handlers):
            if total and _exc_name(h) in ("KeyError", "LookupError"):
                continue
            sh = s0.copy()
            ec = T.mk("exc", tid, i)
            sh.assume(ec, True)
            # explicit raises in the body may carry state
            if h.name:
                sh.envs[fr.env][h.name] = Val(T.mk("excvalue", tid, i))
            self.event("except", sh, h, type=_exc_name(h), body_events=tuple(ncalls), tryid=tid)
            if self.block(h.body, sh):
                exits.append((sh, ec))
        del raised
        if not exits:
            return False
        cur = exits[0][0]
        if exits[0][1] is not None:
            pass
        for s2, ec in exits[1:]:
            cur = self.merge2(ec, s2, cur, pc=s0.pc if alive else None)
        st.take(cur)
        if n.finalbody:
            return self.block(n.finalbody, st)
        return True

    def s_Break(self, n, st):
        self.frames[-1].loops[-1].breaks.append(st.copy())
        return False

    def s_Continue(self, n, st):
        self.frames[-1].loops[-1].continues.append(st.copy())
        return False

    # ------------------------------------------------------------- assignment
    def s_Assign(self, n, st):
        v = self.ev(n.value, st)
        if st.dead:
            return False
        for t in n.targets:
            self.assign(t, v, st)
        return True

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st)
        return True

    def s_AugAssign(self, n, st):
        if isinstance(n.target, ast.Name):
            old = self.ev_Name(ast.copy_location(ast.Name(id=n.target.id, ctx=ast.Load()), n.target), st)
        else:
            old = self.ev(_as_load(n.target), st)
        rhs = self.ev(n.value, st)
        if isinstance(old, Ref):
            o = self.hobj(st, old)
            if o.kind == "list" and isinstance(n.op, ast.Add):
                self.container_mutation(old, "extend", [rhs], {}, st, n)
                return True
            if o.kind == "dict" and isinstance(n.op, ast.BitOr):
                self.container_mutation(old, "update", [rhs], {}, st, n)
                return True
        new = self.binop(type(n.op).__name__, old, rhs, st, n)
        if isinstance(n.target, ast.Name):
            if isinstance(old, Val) and old.locs:
                self.write_array(old, new, st, n, aug=True)
                new = Val(self.tm(new, st), old.locs)
            self.assign_name(n.target.id, new, st)
        else:
            self.assign(n.target, new, st, aug=True)
        return True

    def write_array(self, old, new, st, node, aug=False):
        """In-place write to the array `old`: update every alias, record the event."""
        newt = self.tm(new, st)
        self.event("write", st, node, locs=old.locs, target=old.term, value=newt, aug=aug)
        for e in st.envs.values():
            for k, v in list(e.items()):
                e[k] = self._rewrite(v, old, newt)
        for k, o in list(st.heap.items()):
            if o.kind == "inst":
                attrs = {a: self._rewrite(v, old, newt) for a, v in o.attrs.items()}
                if any(attrs[a] is not o.attrs[a] for a in attrs):
                    st.heap[k] = InstS(o.cls, attrs)
            elif o.kind == "list":
                parts = tuple(
                    ("item", self._rewrite(p[1], old, newt)) if p[0] == "item" else p for p in o.parts)
                if any(x is not y and x[1] is not y[1] for x, y in zip(parts, o.parts)):
                    st.heap[k] = ListS(parts)

    def _rewrite(self, v, old, newt):
        if isinstance(v, Val):
            if v.locs and (v.locs & old.locs):
                if v.term is old.term:
                    return Val(newt, v.locs)
                if all(x.startswith("new") for x in v.locs & old.locs):
                    return Val(T.mk("aliaswrite", v.term, newt), v.locs)
            return v
        if isinstance(v, Rec):
            f = {k: self._rewrite(x, old, newt) for k, x in v.fields.items()}
            if any(f[k] is not v.fields[k] for k in f):
                return Rec(v.cls, f)
        if isinstance(v, Tup):
            i = [self._rewrite(x, old, newt) for x in v.items]
            if any(x is not y for x, y in zip(i, v.items)):
                return Tup(i)
        return v

    def assign_name(self, name, v, st):
        fr = self.frames[-1]
        if name in fr.globals:
            for e in fr.envs:
                if name in st.envs.get(e, {}):
                    st.envs[e][name] = v
                    return
            self.event("globalwrite", st, fr.node, name=name)
            return
        st.envs[fr.env][name] = v

    def assign(self, t, v, st, aug=False):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        elif isinstance(t, ast.Attribute):
            base = self.resolve(self.ev(t.value, st), st)
            if isinstance(base, Ref):
                o = self.hobj(st, base)
                if o.kind == "inst":
                    attrs = dict(o.attrs)
                    attrs[t.attr] = v
                    st.heap[base.loc] = InstS(o.cls, attrs)
                    self.event("setattr", st, t, cls=o.cls, attr=t.attr, loc=base.loc, value=v)
                    return
            self.event("setattr", st, t, cls=getattr(base, "cls", None), attr=t.attr,
                       loc=None, value=v, base=self.tm(base, st))
        elif isinstance(t, ast.Subscript):
            base = self.resolve(self.ev(t.value, st), st)
            idx = self.ev(t.slice, st)
            self.store_item(base, idx, v, st, t, aug)
        else:
            self.issue("unsupported", t, f"assignment target {type(t).__name__}", st)

    def store_item(self, base, idx, v, st, node, aug=False):
        if isinstance(base, Ite):
            self.lift(base, st, lambda b, s: (self.store_item(b, idx, v, s, node, aug), Val(T.NONE))[1])
            return
        if isinstance(base, Ref):
            self.container_mutation(base, "setitem", [idx, v], {}, st, node)
            return
        if isinstance(base, Val):
            it = self.tm(idx, st)
            vt = self.tm(v, st)
            new = T.mk("store", base.term, it, vt)
            old = base
            if not old.locs:
                # untracked array: at least the named variable changes
                old = Val(base.term, frozenset({"tmp?"}))
                self.event("write", st, node, locs=frozenset(), target=base.term, value=new,
                           index=it, rhs=vt, aug=aug)
                self._rebind_term(node.value, base.term, new, st)
                return
            self.event("write", st, node, locs=old.locs, target=base.term, value=new, index=it,
                       rhs=vt, aug=aug)
            ev = self.events.pop()
            self.write_array(old, Val(new), st, node)
            self.events.pop()
            self.events.append(ev)
            return
        self.issue("type", node, f"item assignment on {type(base).__name__}", st)

    def _rebind_term(self, target, oldt, newt, st):
        if isinstance(target, ast.Name):
            fr = self.frames[-1]
            for e in (fr.env,) + tuple(fr.envs):
                env = st.envs.get(e, {})
                if target.id in env:
                    env[target.id] = Val(newt)
                    return

    def unpack(self, elts, v, st, node):
        v = self.resolve(v, st)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.known_items(v, st)
        if items is not None:
            if not star:
                if len(items) != n:
                    self.issue("unpack", node, f"unpack {len(items)} values into {n}", st)
                    items = (items + [Val(T.mk("undef"))] * n)[:n]
                for e, x in zip(elts, items):
                    self.assign(e, x, st)
                return
            i = star[0]
            after = n - i - 1
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, st)
            mid = items[i: len(items) - after]
            self.assign(elts[i], self.alloc(st, ListS([("item", x) for x in mid])), st)
            for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                self.assign(e, x, st)
            return
        if isinstance(v, Ite):
            parts = []

            def one(x, s):
                its = self.known_items(x, s)
                if its is None or len(its) != n:
                    t = self.tm(x, s)
                    its = [Val(item(t, T.const(i))) for i in range(n)]
                return Tup(its)

            r = self.lift(v, st, one)
            if isinstance(r, Tup):
                parts = r.items
                for e, x in zip(elts, parts):
                    self.assign(e, x, st)
                return
        t = self.tm(v, st)
        locs = v.locs if isinstance(v, Val) else frozenset()
        if star:
            i = star[0]
            for j, e in enumerate(elts):
                if j < i:
                    self.assign(e, Val(item(t, T.const(j)), locs), st)
                elif j == i:
                    self.assign(e, Val(T.call("rest", t, T.const(i))), st)
                else:
                    self.assign(e, Val(item(t, T.const(j - n)), locs), st)
            return
        for j, e in enumerate(elts):
            self.assign(e, Val(item(t, T.const(j)), locs), st)

    # ------------------------------------------------------------------ loops
    def known_items(self, v, st):
        """List of values when the iterable has statically known items."""
        v = self.resolve(v, st)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Rec) and v.cls.kind == "namedtuple":
            return [v.fields[f[0]] for f in v.cls.fields]
        if isinstance(v, Ref):
            o = self.hobj(st, v)
            if o.kind == "list":
                return o.items()
            if o.kind == "dict" and all(p[0] == "kv" for p in o.parts) and \
                    not any(_maybe_undef(p[2]) for p in o.parts):
                return [Val(p[1]) for p in o.parts]
        if isinstance(v, Val):
            t = v.term
            if t.op in ("list", "tuple"):
                return [Val(x) for x in t.args]
            if t.op == "const" and isinstance(t.args[1], str) and len(t.args[1]) <= 4:
                return [Val(T.const(c)) for c in t.args[1]]
            if t.op == "call" and t.args[0] == "range":
                nums = [a.args[1] for a in t.args[1] if T.is_num(a)]
                if len(nums) == len(t.args[1]):
                    r = range(*[int(x) for x in nums])
                    if len(r) <= MAXUNROLL:
                        return [Val(T.const(i)) for i in r]
        return None

    def iter_elem(self, v, st):
        """(source term, element value) for an iterable of unknown length."""
        v = self.resolve(v, st)
        if isinstance(v, Ref):
            o = self.hobj(st, v)
            if o.kind == "list" and len(o.parts) == 1 and o.parts[0][0] == "map" and o.parts[0][4] is T.TRUE:
                p = o.parts[0]
                return p[1], p[3]
            if o.kind == "dict":
                if len(o.parts) == 1 and o.parts[0][0] == "map":
                    p = o.parts[0]
                    src = p[1] if p[5] is T.TRUE else T.mk("map", p[1], p[2], p[2], p[5])
                    return src, Val(elem(src) if p[3] is p[2] else p[3])
                t = T.call("keys", self.tm(v, st))
                return t, Val(elem(t))
        if isinstance(v, Hooked) and v.name == "iter":
            return v.data["src"], v.data["elem"]
        t = self.tm(v, st)
        locs = v.locs if isinstance(v, Val) else frozenset()
        return t, Val(elem(t), locs)

    def s_For(self, n, st):
        it = self.ev(n.iter, st)
        if st.dead:
            return False
        items = self.known_items(it, st)
        if items is not None and len(items) <= MAXUNROLL:
            return self.unrolled(n, items, st)
        src, el = self.iter_elem(it, st)
        return self.loop(n, st, "for", src, el)

    s_AsyncFor = s_For

    def s_While(self, n, st):
        return self.loop(n, st, "while", None, None)

    def unrolled(self, n, items, st):
        fr = self.frames[-1]
        breaks = []
        alive = True
        for x in items:
            lf = LoopFrame()
            fr.loops.append(lf)
            self.assign(n.target, x, st)
            alive = self.block(n.body, st)
            fr.loops.pop()
            breaks += lf.breaks
            cur = [st.copy()] if alive else []
            cur += lf.continues
            if not cur:
                alive = False
                break
            alive = True
            st.take(self.merge_exits(cur))
        if alive and n.orelse:
            alive = self.block(n.orelse, st)
        exits = ([st.copy()] if alive else []) + breaks
        if not exits:
            return False
        st.take(self.merge_exits(exits))
        return True

    def merge_exits(self, states):
        """Merge states of mutually exclusive paths using their path conditions."""
        cur = states[-1]
        for s in reversed(states[:-1]):
            c = _distinguish(s.pc, cur.pc)
            cur = self.merge2(c, s, cur)
        return cur

    def loop(self, n, st, kind, src, el):
        fr = self.frames[-1]
        self.nloop += 1
        lid = self.nloop
        s0 = st.copy()
        changed = {}
        snap = (len(self.events), len(self.issues), self.nev, self.nloc, self.nenv, self.nloop,
                len(self.argflow))
        saved_loops = dict(self.loops)
        for attempt in range(60):
            del self.events[snap[0]:]
            del self.issues[snap[1]:]
            del self.argflow[snap[6]:]
            self.nev, self.nloc, self.nenv, self.nloop = snap[2:6]
            self.loops = dict(saved_loops)
            info = LoopInfo(lid, n, fr.module, fr.func)
            info.kind = kind
            info.iter = src
            info.parent = self.loopstack[-1] if self.loopstack else None
            info.func_stack = tuple(f.func for f in self.frames)
            s = s0.copy()
            for path in changed:
                self._set_path(s, path, self._phi(lid, path, self._get_path(s0, path)))
            head = s.copy()
            info.head = head
            self.loopstack.append(lid)
            lf = LoopFrame()
            fr.loops.append(lf)
            nret = len(fr.returns)
            info.events = (len(self.events), 0)
            exit_state = None
            sb = s
            pc_head = sb.pc
            if kind == "while":
                ct = T.truth(self.tm(self.ev(n.test, sb), sb))
                info.test = ct
                r = T.decide(ct, sb.facts)
                if r is not True:
                    exit_state = sb.copy()
                    exit_state.assume(ct, False)
                    exit_state.pc = pc_head
                if r is not False:
                    sb.assume(ct, True)
                    sb.pc = pc_head
                    alive = True
                else:
                    alive = False
            else:
                exit_state = head.copy()
                alive = True
                self.assign(n.target, el, sb)
            base_pc = sb.pc
            if alive:
                alive = self.block(n.body, sb)
            fr.loops.pop()
            self.loopstack.pop()
            info.events = (info.events[0], len(self.events))
            backs = ([sb.copy()] if alive else []) + lf.continues
            back = self.merge_exits(backs) if backs else None
            new = set()
            if back is not None:
                self._diff(head, back, new, s0, lid)
            new = {p for p in new if p not in changed}
            if not new:
                break
            for p in new:
                changed[p] = True
            # drop nested paths subsumed by a shorter one
            for p in list(changed):
                if any(q != p and p[: len(q)] == q for q in changed):
                    del changed[p]
            del fr.returns[nret:]
        else:
            self.issue("fixpoint", n, "loop analysis did not stabilise", st)
        info.back = back
        info.has_back = back is not None
        info.back_guard = _relative(back.pc, base_pc) if back is not None else T.FALSE
        for path in changed:
            b = self._get_path(back, path) if back is not None else None
            info.header[path] = (self._get_path(s0, path), self._get_path(head, path), b)
        self.loops[lid] = info
        # -------- exits
        outs = []
        if exit_state is not None:
            if kind == "for" and back is not None:
                self._bind_new(head, back, exit_state, s0, lid, fr)
            self._finish_lists(info, s0, head, back, exit_state, lf, src, el, changed, nret == len(fr.returns))
        brk = []
        for k, b in enumerate(lf.breaks):
            info.breaks.append((_relative(b.pc, base_pc), b))
            brk.append(T.mk("brk", lid, k))
        # returns inside the loop become exits guarded by an opaque condition
        inner = fr.returns[nret:]
        del fr.returns[nret:]
        rc = []
        for k, (rs, rv, rn) in enumerate(inner):
            c = T.mk("brk", lid, f"r{k}")
            rc.append(c)
            info.breaks.append((_relative(rs.pc, base_pc), rs))
            rs.pc = T.tand(s0.pc, c, *[T.tnot(x) for x in rc[:-1]])
            fr.returns.append((rs, rv, rn))
        pc_after = T.tand(s0.pc, *[T.tnot(c) for c in rc])
        alive = False
        if exit_state is not None:
            exit_state.pc = pc_after
            alive = True
            if n.orelse:
                alive = self.block(n.orelse, exit_state)
        if alive:
            cur = exit_state
        else:
            cur = None
        for c, b in reversed(list(zip(brk, lf.breaks))):
            b = b.copy()
            b.pc = pc_after
            if cur is None:
                cur = b
            else:
                cur = self.merge2(c, b, cur, pc=pc_after)
        if cur is None:
            return False
        st.take(cur)
        st.pc = pc_after
        return True

    def _bind_new(self, head, back, exit_state, s0, lid, fr):
        e0 = s0.envs[fr.env]
        eb = back.envs[fr.env]
        for name, v in eb.items():
            if name not in e0:
                c = T.mk("brk", lid, "empty")
                exit_state.envs[fr.env][name] = Ite(c, UNDEF, v)

    def _finish_lists(self, info, s0, head, back, exit_state, lf, src, el, changed, noret):
        """Recognise `acc = []; for e in src: acc.append(f(e))` as a map."""
        if info.kind != "for" or back is None or lf.breaks or not noret:
            return
        for path in changed:
            if path[0] != "heap" or len(path) != 2:
                continue
            loc = path[1]
            o0, oh, ob = s0.heap.get(loc), head.heap.get(loc), back.heap.get(loc)
            if o0 is None or ob is None or oh is None or o0.kind not in ("list", "dict"):
                continue
            hp = oh.parts
            if ob.parts[: len(hp)] != hp:
                continue
            tail = ob.parts[len(hp):]
            var = elem(src)
            if o0.kind == "list":
                new = []
                ok = True
                for p in tail:
                    if p[0] == "item":
                        new.append(("map", src, var, p[1], T.TRUE))
                    elif p[0] == "opt" and len(p[2]) == 1 and p[2][0][0] == "item":
                        new.append(("map", src, var, p[2][0][1], p[1]))
                    else:
                        ok = False
                if ok and len(new) == 1:
                    exit_state.heap[loc] = ListS(o0.parts + tuple(new))
            else:
                new = []
                ok = True
                for p in tail:
                    if p[0] == "kv":
                        if isinstance(p[2], Ref) and p[2].loc is not None and p[2].loc not in s0.heap:
                            self.per_element[p[2].loc] = back.heap.get(p[2].loc)
                        new.append(("map", src, var, p[1], p[2], T.TRUE))
                    else:
                        ok = False
                if ok:
                    exit_state.heap[loc] = DictS(o0.parts + tuple(new))

    # -- loop header paths -------------------------------------------------
    def _diff(self, head, back, out, s0, lid):
        for e, env in s0.envs.items():
            he, be = head.envs.get(e, {}), back.envs.get(e, {})
            for name in env:
                self._vdiff(("var", e, name), he.get(name, UNDEF), be.get(name, UNDEF), out)
        for loc in s0.heap:
            a, b = head.heap.get(loc), back.heap.get(loc)
            if a is b or b is None or a is None:
                continue
            if a.kind == "inst":
                for k in set(a.attrs) | set(b.attrs):
                    self._vdiff(("heap", loc, k), a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF), out)
            elif a.kind in ("list", "dict"):
                if not _same_parts(a.parts, b.parts):
                    out.add(("heap", loc))
            elif a.kind == "set":
                if a.term is not b.term:
                    out.add(("heap", loc))

    def _vdiff(self, path, a, b, out):
        if a is b:
            return
        if isinstance(a, Val) and isinstance(b, Val):
            if a.term is not b.term:
                out.add(path)
            return
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls is b.cls:
            for k in a.fields:
                self._vdiff(path + (k,), a.fields[k], b.fields.get(k, UNDEF), out)
            return
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                self._vdiff(path + (i,), x, y, out)
            return
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
            return
        if self._same_value(a, b):
            return
        out.add(path)

    def _same_value(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, Func):
            return a.node is b.node and a.envs == b.envs
        if isinstance(a, (Cls,)):
            return a.info is b.info
        if isinstance(a, (Ext, Mod)):
            return a.name == b.name
        if isinstance(a, Method):
            return a.name == b.name and self._same_value2(a.recv, b.recv)
        if isinstance(a, Bound):
            return a.func is b.func and self._same_value2(a.self_, b.self_)
        if isinstance(a, Partial):
            return (self._same_value2(a.func, b.func) and len(a.args) == len(b.args)
                    and all(self._same_value2(x, y) for x, y in zip(a.args, b.args))
                    and set(a.kwargs) == set(b.kwargs)
                    and all(self._same_value2(a.kwargs[k], b.kwargs[k]) for k in a.kwargs))
        if isinstance(a, Component):
            return a.label == b.label
        if isinstance(a, Hooked):
            return a.name == b.name
        if isinstance(a, Ite):
            return a.cond is b.cond and self._same_value2(a.a, b.a) and self._same_value2(a.b, b.b)
        return False

    def _same_value2(self, a, b):
        out = set()
        self._vdiff(("x",), a, b, out)
        return not out

    def _get_path(self, st, path):
        if path[0] == "var":
            v = st.envs.get(path[1], {}).get(path[2], UNDEF)
            rest = path[3:]
        else:
            o = st.heap.get(path[1])
            if len(path) == 2:
                return o
            v = o.attrs.get(path[2], UNDEF)
            rest = path[3:]
        for k in rest:
            if isinstance(v, Rec):
                v = v.fields.get(k, UNDEF)
            elif isinstance(v, Tup):
                v = v.items[k]
            else:
                return UNDEF
        return v

    def _set_path(self, st, path, val):
        def setin(v, rest):
            if not rest:
                return val
            if isinstance(v, Rec):
                f = dict(v.fields)
                f[rest[0]] = setin(f.get(rest[0], UNDEF), rest[1:])
                return Rec(v.cls, f)
            if isinstance(v, Tup):
                it = list(v.items)
                it[rest[0]] = setin(it[rest[0]], rest[1:])
                return Tup(it)
            return val

        if path[0] == "var":
            env = st.envs[path[1]]
            env[path[2]] = setin(env.get(path[2], UNDEF), path[3:])
        else:
            o = st.heap[path[1]]
            if len(path) == 2:
                st.heap[path[1]] = val
            else:
                attrs = dict(o.attrs)
                attrs[path[2]] = setin(attrs.get(path[2], UNDEF), path[3:])
                st.heap[path[1]] = InstS(o.cls, attrs)

    def _phi(self, lid, path, init):
        if path[0] == "var":
            name = ".".join(str(x) for x in path[2:])
        else:
            name = ".".join(str(x) for x in path[1:])
        t = T.mk("phi", lid, name)
        if isinstance(init, ListS):
            return ListS([("splice", t)])
        if isinstance(init, DictS):
            return DictS([("splice", t)])
        if isinstance(init, SetS):
            return SetS(t)
        locs = init.locs if isinstance(init, Val) else frozenset()
        return Val(t, locs)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            self.issue("unsupported", n, f"expression {type(n).__name__}", st)
            return Val(T.mk("opaque", type(n).__name__, getattr(n, "lineno", 0)))
        return m(n, st)

    def ev_Constant(self, n, st):
        if n.value is Ellipsis:
            return Val(T.mk("ellipsis"))
        if isinstance(n.value, (int, float, str, bool, type(None), bytes, complex)):
            return Val(T.const(n.value))
        return Val(T.mk("opaqueconst", repr(n.value)))

    def ev_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.tm(self.ev(v.value, st), st))
            else:
                parts.append(T.const(v.value))
        return Val(T.call("fstr", *parts))

    def ev_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def lookup(self, name, st, node=None):
        fr = self.frames[-1]
        env = st.envs.get(fr.env, {})
        if name in env:
            return env[name]
        if fr.locals is not None and name in fr.locals and name not in fr.globals:
            return UNDEF
        for e in fr.envs:
            env = st.envs.get(e, {})
            if name in env:
                return env[name]
        v = self.global_value(fr.module, name)
        if v is not None:
            return v
        if name in BUILTINS:
            return Ext(name)
        return None

    def ev_Name(self, n, st):
        v = self.lookup(n.id, st, n)
        if v is None:
            self.issue("name", n, f"name '{n.id}' is not defined", st)
            return Val(T.sym(f"?{n.id}"))
        v = self.resolve(v, st)
        if _maybe_undef(v):
            c = _undef_cond(v)
            self.issue("unbound", n, f"'{n.id}' may be used before assignment", st)
            self.issues[-1] = self.issues[-1] + (n.id, c, dict(st.facts))
            v = _strip_undef(v)
            if v is UNDEF:
                return Val(T.sym(f"?{n.id}"))
        return v

    def ev_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def ev_Tuple(self, n, st):
        return Tup(self._elts(n.elts, st, n))

    def _elts(self, elts, st, node):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                items = self.known_items(v, st)
                if items is None:
                    out.append(Val(T.mk("starred", self.tm(v, st))))
                else:
                    out += items
            else:
                out.append(self.ev(e, st))
        return out

    def ev_List(self, n, st):
        vals = self._elts(n.elts, st, n)
        parts = []
        for v in vals:
            if isinstance(v, Val) and v.term.op == "starred":
                parts.append(("splice", v.term.args[0]))
            else:
                parts.append(("item", v))
        return self.alloc(st, ListS(parts))

    def ev_Set(self, n, st):
        return self.alloc(st, SetS(T.mk("set", *[self.tm(v, st) for v in self._elts(n.elts, st, n)])))

    def ev_Dict(self, n, st):
        r = self.alloc(st, DictS([]))
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, st)
                self.container_mutation(r, "update", [d], {}, st, n, fresh=True)
            else:
                kv = self.ev(k, st)
                vv = self.ev(v, st)
                self.container_mutation(r, "setitem", [kv, vv], {}, st, n, fresh=True)
        return r

    def ev_Lambda(self, n, st):
        return self.make_func(n, st, "<lambda>")

    def ev_IfExp(self, n, st):
        c = T.truth(self.tm(self.ev(n.test, st), st))
        _, v = self.branch(
            c, st, lambda s: (True, self.ev(n.body, s)), lambda s: (True, self.ev(n.orelse, s)))
        return v

    def ev_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(vals, s):
            v = self.ev(vals[0], s)
            if len(vals) == 1:
                return v
            c = T.truth(self.tm(v, s))
            if isand:
                _, r = self.branch(c, s, lambda s2: (True, go(vals[1:], s2)), lambda s2: (True, v))
            else:
                _, r = self.branch(c, s, lambda s2: (True, v), lambda s2: (True, go(vals[1:], s2)))
            if isinstance(v, Val) and (T._boolish(v.term) or v.term.op == "const"):
                rt = self.tm(r, s)
                if T._boolish(T.truth(rt)) and _is_bool_valued(rt):
                    pass
            return r

        return go(n.values, st)

    def ev_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        t = self.tm(v, st)
        if isinstance(n.op, ast.Not):
            return Val(T.tnot(T.truth(t)))
        if isinstance(n.op, ast.USub):
            return self.fresh(T.neg(t), [v])
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if T._boolish(t):
                return self.fresh(T.tnot(t), [v])
            return self.fresh(T.call("invert", t), [v])
        return Val(t)

    def fresh(self, t, operands):
        """Result of an array operation: new storage when an operand is an array."""
        if any(isinstance(o, Val) and o.locs for o in operands):
            return Val(t, frozenset({self.newloc("new")}))
        return Val(t)

    def ev_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(type(n.op).__name__, a, b, st, n)

    def binop(self, op, a, b, st, node):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if op in ("Add", "Mult"):
            la, lb = self._listlike(a, st), self._listlike(b, st)
            if op == "Add" and (la is not None or lb is not None):
                if la is not None and lb is not None:
                    if isinstance(a, Tup) or isinstance(b, Tup):
                        ia, ib = self.known_items(a, st), self.known_items(b, st)
                        if ia is not None and ib is not None:
                            return Tup(ia + ib)
                    return self.alloc(st, ListS(tuple(la) + tuple(lb)))
            if op == "Mult" and (la is not None) != (lb is not None):
                lst, k = (la, b) if la is not None else (lb, a)
                kt = self.tm(k, st)
                if T.is_num(kt) and kt.args[0] == "int" and kt.args[1] <= 8:
                    return self.alloc(st, ListS(tuple(lst) * max(0, kt.args[1])))
                return Val(T.call("replist", vterm_obj(ListS(lst), st), kt))
        if op == "Sub" and isinstance(a, Ref):
            r = self.set_minus(a, b, st)
            if r is not None:
                return r
        ta, tb = self.tm(a, st), self.tm(b, st)
        for x, y in ((ta, tb), (tb, ta)):
            if x.op == "const" and isinstance(x.args[1], str):
                if op == "Add":
                    if y.op == "const" and isinstance(y.args[1], str):
                        return Val(T.const(ta.args[1] + tb.args[1]))
                    return Val(T.call("fstr", ta, tb))
                if op == "Mod":
                    return Val(T.call("fstr", ta, tb))
        f = {
            "Add": T.add, "Sub": T.sub, "Mult": T.mul, "Div": T.div, "Pow": T.power,
        }.get(op)
        if f is not None:
            return self.fresh(f(ta, tb), [a, b])
        if op == "BitAnd":
            if T._boolish(ta) and T._boolish(tb):
                return self.fresh(T.tand(ta, tb), [a, b])
        if op == "BitOr":
            if T._boolish(ta) and T._boolish(tb):
                return self.fresh(T.tor(ta, tb), [a, b])
            if isinstance(a, Ref) and self.hobj(st, a).kind == "dict":
                r = self.alloc(st, self.hobj(st, a))
                self.container_mutation(r, "update", [b], {}, st, node, fresh=True)
                return r
        if op == "MatMult":
            return self.fresh(matmul(ta, tb), [a, b])
        if op in ("FloorDiv", "Mod") and T.is_num(ta) and T.is_num(tb) and tb.args[1] != 0:
            v = ta.args[1] // tb.args[1] if op == "FloorDiv" else ta.args[1] % tb.args[1]
            return Val(T.const(v))
        return self.fresh(T.call(op.lower(), ta, tb), [a, b])

    def set_minus(self, a, b, st):
        """Difference of sets of constants."""
        o = self.hobj(st, a)
        if o.kind != "set" or o.term.op != "set":
            return None
        if isinstance(b, Ref) and self.hobj(st, b).kind == "set":
            other = self.hobj(st, b).term
            other = list(other.args) if other.op == "set" else None
        else:
            items = self.known_items(b, st)
            other = None if items is None else [self.tm(x, st) for x in items]
        if other is None or not all(T.is_const(x) for x in list(o.term.args) + other):
            return None
        return self.alloc(st, SetS(T.mk("set", *[x for x in o.term.args if x not in other])))

    def _listlike(self, v, st):
        if isinstance(v, Ref):
            o = self.hobj(st, v)
            if o.kind == "list":
                return o.parts
        if isinstance(v, Tup):
            return tuple(("item", x) for x in v.items)
        t = v.term if isinstance(v, Val) and not v.locs else None  # what has a location is an array
        if t is not None and (t.op in ("list", "map", "concatlist") or t.op == "call" and t.args[0] == "replist"):
            return (("splice", t),)
        return None

    def ev_Compare(self, n, st):
        left = self.ev(n.left, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            out.append(self.compare(_CMP[type(op).__name__], left, right, st, n))
            left = right
        if len(out) == 1:
            return Val(out[0])
        return Val(T.tand(*out))

    def compare(self, op, a, b, st, node):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if op in ("in", "not in"):
            r = None
            if isinstance(b, Ref):
                o = self.hobj(st, b)
                if o.kind == "dict":
                    at = self.tm(a, st)
                    if all(p[0] == "kv" for p in o.parts):
                        ts = []
                        for p in o.parts:
                            e = T.cmp("==", at, p[1])
                            if _maybe_undef(p[2]):
                                e = T.tand(e, T.tnot(_undef_cond(p[2])))
                            ts.append(e)
                        r = T.tor(*ts) if ts else T.FALSE
            if r is None:
                r = T.cmp("in", self.tm(a, st), self.tm(b, st))
            return T.tnot(r) if op == "not in" else r
        if op in ("is", "is not", "==", "!="):
            # comparisons of alternatives with None
            def iseq(x, y):
                if isinstance(x, Ite):
                    return T.ite(x.cond, iseq(x.a, y), iseq(x.b, y))
                if isinstance(y, Ite):
                    return T.ite(y.cond, iseq(x, y.a), iseq(x, y.b))
                if isinstance(x, Val) and isinstance(y, Val):
                    return T.cmp("==", x.term, y.term)
                for p, q in ((x, y), (y, x)):
                    if isinstance(q, Val) and q.term is T.NONE and not isinstance(p, Val):
                        if p is UNDEF:
                            return T.FALSE
                        return T.FALSE
                if isinstance(x, Cls) and isinstance(y, Cls):
                    return T.TRUE if x.info is y.info else T.FALSE
                if isinstance(x, Ext) and isinstance(y, Ext):
                    return T.TRUE if x.name == y.name else T.FALSE
                return T.cmp("==", self.tm(x, st), self.tm(y, st))

            r = iseq(a, b)
            return T.tnot(r) if op in ("is not", "!=") else r
        return T.cmp(op, self.tm(a, st), self.tm(b, st))

    def ev_Slice(self, n, st):
        f = lambda x: self.tm(self.ev(x, st), st) if x is not None else T.NONE  # noqa
        return Val(T.mk("slice", f(n.lower), f(n.upper), f(n.step)))

    def ev_Subscript(self, n, st):
        base = self.ev(n.value, st)
        idx = self.ev(n.slice, st)
        return self.getitem(base, idx, st, n)

    def getitem(self, base, idx, st, node):
        self.risk += 1
        return self.lift(base, st, lambda b, s: self._getitem(b, idx, s, node))

    def _getitem(self, base, idx, st, node):
        it = self.tm(idx, st)
        if isinstance(base, Hooked) and base.name == "loc":
            return self.getitem(base.data["obj"], idx, st, node)
        items = None
        if isinstance(base, Tup) or (isinstance(base, Rec) and base.cls.kind == "namedtuple"):
            items = self.known_items(base, st)
        if isinstance(base, Ref):
            o = self.hobj(st, base)
            if o.kind == "dict":
                found = [T.decide(T.cmp("==", it, q[1]), st.facts) for q in o.parts if q[0] == "kv"]
                if True in found:
                    self.risk -= 1
                return self.dict_get(o, it, st, node, base)
            if o.kind == "list":
                items = o.items()
                if items is None:
                    if len(o.parts) == 1 and o.parts[0][0] == "map" and o.parts[0][4] is T.TRUE and it.op != "slice":
                        p = o.parts[0]
                        return self.subst_val(p[3], {p[2]: item(p[1], it)}, st)
                    if T.is_num(it) and it.args[1] < 0 and o.parts[-1][0] == "item":
                        k = -it.args[1]
                        if all(p[0] == "item" for p in o.parts[-k:]) and k <= len(o.parts):
                            return o.parts[-k][1]
                        m = 0
                        while m < len(o.parts) and o.parts[-1 - m][0] == "item":
                            m += 1
                        t0 = vterm_obj(ListS(o.parts[: len(o.parts) - m]), st)
                        return Val(item(t0, T.const(m - k)))
                    if it.op == "slice" and T.is_num(it.args[0]) and it.args[0].args[1] < 0 \
                            and it.args[1] is T.NONE:
                        k = -it.args[0].args[1]
                        if k <= len(o.parts) and all(p[0] == "item" for p in o.parts[-k:]):
                            return self.alloc(st, ListS(o.parts[-k:]))
                        m = 0
                        while m < len(o.parts) and o.parts[-1 - m][0] == "item":
                            m += 1
                        t0 = vterm_obj(ListS(o.parts[: len(o.parts) - m]), st)
                        pre = [("item", Val(item(t0, T.const(-j)))) for j in range(k - m, 0, -1)]
                        return self.alloc(st, ListS(pre + list(o.parts[len(o.parts) - m:])))
                    if it.op == "slice" and it.args[0] is T.NONE and it.args[1] is T.NONE:
                        return self.alloc(st, o)
                    return Val(item(self.tm(base, st), it))
            if o.kind == "inst":
                f = o.cls.methods.get("__getitem__")
                if f is not None:
                    return self.call(Bound(f, base), [idx], {}, st, node)
        if items is not None:
            if T.is_num(it) and it.args[0] == "int":
                k = it.args[1]
                if -len(items) <= k < len(items):
                    return items[k]
                self.issue("index", node, f"index {k} out of range for {len(items)} items", st)
                return Val(T.mk("undef"))
            if it.op == "slice":
                a = [None if x is T.NONE else (x.args[1] if T.is_num(x) else "?") for x in it.args]
                if "?" not in a:
                    sub = items[slice(*a)]
                    if isinstance(base, Ref):
                        return self.alloc(st, ListS([("item", x) for x in sub]))
                    return Tup(sub)
            return Val(item(self.tm(base, st), it))
        t = self.tm(base, st)
        locs = base.locs if isinstance(base, Val) else frozenset()
        if locs and not _is_view_index(it):
            locs = frozenset({self.newloc("new")})
        return Val(item(t, it), locs)

    def dict_get(self, o, it, st, node, base, default=None):
        # last writer wins
        out = default
        if T.is_const(it) or True:
            alts = []
            decided = False
            for p in reversed(o.parts):
                if p[0] == "kv":
                    c = T.cmp("==", it, p[1])
                    r = T.decide(c, st.facts)
                    if r is False:
                        continue
                    alts.append((c, p[2]))
                    if r is True:
                        decided = True
                        break
                elif p[0] == "map":
                    v = self.subst_val(p[4], {p[2]: it}, st) if p[3] is p[2] else Val(item(self.tm(base, st), it))
                    alts.append((T.cmp("in", it, p[1]), v))
                    if len(o.parts) == 1:
                        decided = True
                        break
                else:
                    alts.append((T.cmp("in", it, p[1]), Val(item(p[1], it))))
                    if len(o.parts) == 1:
                        decided = True
                        break
            if alts:
                if decided or default is None:
                    out = alts[-1][1]
                    rest = alts[:-1]
                    if default is None and not decided:
                        # KeyError possible when no entry matches
                        miss = T.tnot(T.tor(*[c for c, _ in alts]))
                        if T.decide(miss, st.facts) is not False and T.is_const(it):
                            self.issue("key", node, f"key {T.show(it)} may be missing", st)
                else:
                    out = default
                    rest = alts
                for c, v in reversed(rest):
                    out = self.merge_val(c, v, out)
                out = self.resolve(out, st)
                if _maybe_undef(out):
                    if default is not None:
                        out = self._replace_undef(out, default)
                    else:
                        out = _strip_undef(out)
                return out
        if out is None:
            if all(p[0] == "kv" for p in o.parts) and T.is_const(it):
                self.issue("key", node, f"key {T.show(it)} is missing", st)
            return Val(item(self.tm(base, st), it) if base is not None else T.mk("missing", it))
        return out

    def _replace_undef(self, v, d):
        if v is UNDEF:
            return d
        if isinstance(v, Ite):
            return self.merge_val(v.cond, self._replace_undef(v.a, d), self._replace_undef(v.b, d))
        return v

    def subst_val(self, v, mapping, st):
        if isinstance(v, Val):
            return Val(T.subst(v.term, mapping), v.locs)
        if isinstance(v, Tup):
            return Tup([self.subst_val(x, mapping, st) for x in v.items])
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.subst_val(x, mapping, st) for k, x in v.fields.items()})
        if isinstance(v, Ite):
            return self.merge_val(T.subst(v.cond, mapping), self.subst_val(v.a, mapping, st),
                                  self.subst_val(v.b, mapping, st))
        if isinstance(v, Ref):
            return Val(T.subst(self.tm(v, st), mapping))
        return v

    # ---------------------------------------------------------- comprehension
    def ev_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def ev_GeneratorExp(self, n, st):
        return self.comp(n, st, "list")

    def ev_SetComp(self, n, st):
        r = self.comp(n, st, "list")
        items = self.known_items(r, st)
        if items is not None and all(T.is_const(self.tm(x, st)) for x in items):
            return self.alloc(st, SetS(T.mk("set", *dict.fromkeys(self.tm(x, st) for x in items))))
        return self.alloc(st, SetS(T.call("set", self.tm(r, st))))

    def ev_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def comp(self, n, st, kind):
        fr = self.frames[-1]
        # comprehension scope: temporary env chained to the current one
        self.nenv += 1
        env = self.nenv
        st.envs[env] = {}
        old = (fr.env, fr.envs, fr.locals)
        fr.envs = (fr.env,) + tuple(fr.envs)
        fr.env = env
        outer_locals = fr.locals
        fr.locals = None
        self._comp_outer = outer_locals
        try:
            parts = self._comp(n, n.generators, st, kind)
        finally:
            fr.env, fr.envs, fr.locals = old
        st.envs.pop(env, None)
        if kind == "list":
            return self.alloc(st, ListS(parts))
        r = self.alloc(st, DictS([]))
        merged = []
        for p in parts:
            if p[0] == "kv":
                merged = [q for q in merged if not (q[0] == "kv" and q[1] is p[1])]
            merged.append(p)
        st.heap[r.loc] = DictS(merged)
        return r

    def _comp(self, n, gens, st, kind):
        if not gens:
            if kind == "list":
                return [("item", self.ev(n.elt, st))]
            return [("kv", self.tm(self.ev(n.key, st), st), self.ev(n.value, st))]
        g = gens[0]
        it = self.ev(g.iter, st)
        items = self.known_items(it, st)
        if items is not None and len(items) <= MAXUNROLL:
            out = []
            for x in items:
                self.assign(g.target, x, st)
                out += self._comp_body(n, g, gens, st, kind)
            return out
        src, el = self.iter_elem(it, st)
        self.assign(g.target, el, st)
        var = elem(src)
        self.loopstack.append(("comp", id(n)))
        known = set(st.heap)
        body = self._comp_body(n, g, gens, st, kind)
        self.loopstack.pop()
        for p in body:
            if p[0] == "kv" and isinstance(p[2], Ref) and p[2].loc is not None and p[2].loc not in known:
                self.per_element[p[2].loc] = st.heap.get(p[2].loc)
        out = []
        for p in body:
            cond = T.TRUE
            while p[0] == "opt":
                cond = T.tand(cond, p[1])
                p = p[2][0]
            if p[0] == "item":
                out.append(("map", src, var, p[1], cond))
            elif p[0] == "kv":
                out.append(("map", src, var, p[1], p[2], cond))
            elif p[0] == "map" and kind == "list":
                inner = map_term(p[1], p[2], self.tm(p[3], st), p[4])
                out.append(("splice", T.mk("flatmap", src, var, inner, cond)))
            else:
                out.append(("splice", T.mk("flatmap", src, var, T.mk("opaquepart"), cond)))
        return out

    def _comp_body(self, n, g, gens, st, kind):
        conds = []
        for c in g.ifs:
            conds.append(T.truth(self.tm(self.ev(c, st), st)))
        c = T.tand(*conds)
        r = T.decide(c, st.facts)
        if r is False:
            return []
        if r is True:
            return self._comp(n, gens[1:], st, kind)
        s2 = st.copy()
        s2.assume(c, True)
        parts = self._comp(n, gens[1:], s2, kind)
        st.heap = s2.heap
        return [("opt", c, [p]) for p in parts]

    # -------------------------------------------------------------- attribute
    def ev_Attribute(self, n, st):
        base = self.ev(n.value, st)
        return self.getattr(base, n.attr, st, n)

    def getattr(self, base, name, st, node):
        return self.lift(base, st, lambda b, s: self._getattr(b, name, s, node))

    def _getattr(self, b, name, st, node):
        if isinstance(b, Mod):
            v = self.global_value(b.name, name)
            if v is None:
                self.issue("attr", node, f"module {b.name} has no attribute {name}", st)
                return Val(T.sym(f"?{b.name}.{name}"))
            return v
        if isinstance(b, Ext):
            return extattr(f"{b.name}.{name}")
        if isinstance(b, Rec):
            if name in b.fields:
                return self.resolve(b.fields[name], st)
            return self.class_attr(b.cls, name, b, st, node)
        if isinstance(b, Ref):
            o = self.hobj(st, b)
            if o is None:
                return Val(T.mk("attr", T.mk("ref", b.loc), name))
            if o.kind == "inst":
                if name in o.attrs:
                    v = self.resolve(o.attrs[name], st)
                    if not _maybe_undef(v):
                        return v
                    v = _strip_undef(v)
                    if v is not UNDEF:
                        return v
                return self.class_attr(o.cls, name, b, st, node)
            if name in CONTAINER_METHODS[o.kind]:
                return Method(b, name)
            if name == "loc":
                return Hooked("loc", None, {"obj": b})
            if name in ("T", "shape", "ndim", "size", "index", "iloc"):
                return Val(T.mk("attr", self.tm(b, st), name))
            return Method(b, name)
        if isinstance(b, Cls):
            ci = b.info
            if name == "_fields":
                return Tup([Val(T.const(f[0])) for f in ci.fields])
            if name in ci.methods:
                return ci.methods[name]
            if name == "__name__":
                return Val(T.const(ci.name))
            for f in ci.fields:
                if f[0] == name and f[2] is not None:
                    return self.eval_in_module(f[2], ci.module)
            if name in ci.statics and isinstance(ci.statics[name], ast.AST):
                return self.eval_in_module(ci.statics[name], ci.module)
            return Method(b, name)
        if isinstance(b, Hooked) and b.name == "signature" and name == "parameters":
            return self.alloc(st, DictS([("kv", T.const(k), Val(T.call("parameter", T.const(k)))) for k in b.data["names"]]))
        if isinstance(b, (Func, Partial, Component, Hooked, Bound)):
            if name in ("__name__", "__qualname__"):
                return Val(T.const(getattr(b, "name", "f")))
            if isinstance(b, Partial) and name in ("func",):
                return b.func
            if isinstance(b, Partial) and name == "keywords":
                return self.alloc(st, DictS([("kv", T.const(k), v) for k, v in b.kwargs.items()]))
            return Method(b, name)
        if isinstance(b, Tup):
            return Method(b, name)
        if isinstance(b, Method):
            return Val(T.mk("attr", self.tm(b, st), name))
        if isinstance(b, Val):
            if name == "T":
                return Val(transpose(b.term), b.locs)
            if name == "loc":
                return Hooked("loc", None, {"obj": b})
            if name in ARRAY_ATTRS:
                return Val(T.mk("attr", b.term, name))
            if b.term is T.NONE:
                self.issue("none", node, f"attribute {name} of None", st)
            if name in ("lower", "upper") and not (b.term.op == "const" or b.term.op == "call"):
                return Hooked_attr(b, name)
            if name in ARRAY_METHODS or name in RNG_METHODS or name in ("append", "update", "items"):
                return Method(b, name)
            return Hooked_attr(b, name)
        if b is UNDEF:
            return Val(T.mk("undef"))
        return Val(T.mk("attr", self.tm(b, st), name))

    def eval_in_module(self, node, module):
        s2 = State()
        fr = self._frame("<class>", module, s2, node)
        self.frames.append(fr)
        try:
            v = self.ev(node, s2)
            if isinstance(v, Ref):
                v = self._freeze(v, s2)
            return v
        finally:
            self.frames.pop()

    def class_attr(self, ci, name, self_, st, node):
        if name in ci.methods:
            f = ci.methods[name]
            if name in ci.props:
                return self.call(Bound(f, self_), [], {}, st, node)
            if ci.statics.get(name) == "staticmethod":
                return f
            return Bound(f, self_)
        if name in ci.statics and isinstance(ci.statics[name], ast.AST):
            return self.eval_in_module(ci.statics[name], ci.module)
        if ci.kind == "namedtuple" and name in ("_replace", "_asdict", "_fields", "count", "index"):
            if name == "_fields":
                return Tup([Val(T.const(f[0])) for f in ci.fields])
            return Method(self_, name)
        if name == "__class__":
            return Cls(ci)
        if name == "__dict__":
            return Method(self_, name)
        hook = self.hooks.get(f"attr:{ci.qual}")
        if hook is not None:
            return hook(self, st, self_, name, node)
        self.issue("attr", node, f"{ci.name} has no attribute {name}", st)
        return Val(T.mk("attr", self.tm(self_, st), name))

    # ------------------------------------------------------------------ calls
    def ev_Call(self, n, st):
        # super().__setattr__(...)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__":
            return self._setattr_call(n, st)
        f = self.ev(n.func, st)
        args, kwargs, opaque = self._args(n, st)
        if st.dead:
            return Val(T.NONE)
        self.callsites += 1
        if opaque is not None:
            f2 = self.resolve(f, st)
            if isinstance(f2, (Component, Hooked)):
                return self.call(f2, args, dict(kwargs, **{"**": opaque}), st, n)
            if isinstance(f2, Func):
                return self.call(f2, args, dict(kwargs, **{"**": opaque}), st, n)
            kwargs = dict(kwargs)
            kwargs["**"] = opaque
        return self.call(f, args, kwargs, st, n)

    def _args(self, n, st):
        args = []
        opaque = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                items = self.known_items(v, st)
                if items is None:
                    args.append(Val(T.mk("starred", self.tm(v, st))))
                else:
                    args += items
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                v = self.resolve(v, st)
                known = None
                if isinstance(v, Ref):
                    o = self.hobj(st, v)
                    if o.kind == "dict":
                        known = o.known()
                if known is not None:
                    for kk, vv in known.items():
                        if _maybe_undef(vv):
                            vv = _strip_undef(vv)
                        kwargs[kk] = vv
                else:
                    opaque = v
            else:
                kwargs[k.arg] = v
        return args, kwargs, opaque

    def _setattr_call(self, n, st):
        args = [self.ev(a, st) for a in n.args]
        f = n.func.value
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "super":
            fr = self.frames[-1]
            selfname = fr.node.args.args[0].arg if isinstance(fr.node, ast.FunctionDef) else "self"
            self_ = self.lookup(selfname, st)
        elif isinstance(f, ast.Name) and f.id == "object":
            self_, args = args[0], args[1:]
        else:
            self_ = self.ev(f, st)
        if isinstance(self_, Ref) and len(args) == 2 and isinstance(args[0], Val) and T.is_const(args[0].term):
            o = self.hobj(st, self_)
            if o.kind == "inst":
                attrs = dict(o.attrs)
                attrs[T.cval(args[0].term)] = args[1]
                st.heap[self_.loc] = InstS(o.cls, attrs)
                return Val(T.NONE)
        self.event("setattr", st, n, cls=getattr(self_, "cls", None), attr=T.show(self.tm(args[0], st)) if args else "?",
                   loc=None, value=args[-1] if args else None, base=self.tm(self_, st))
        return Val(T.NONE)

    def call(self, f, args, kwargs, st, node):
        f = self.resolve(f, st)
        if isinstance(f, Ite):
            return self.lift(f, st, lambda g, s: self.call(g, args, kwargs, s, node))
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, st, node)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs, st, node)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, st, node)
        if isinstance(f, Cls):
            return self.construct(f.info, args, kwargs, st, node)
        if isinstance(f, Component):
            if self.comp_call is not None:
                return self.comp_call(self, f, args, kwargs, st, node)
            return self.opaque_call(f, args, kwargs, st, node)
        if isinstance(f, Hooked):
            if f.fn is not None:
                return f.fn(self, st, args, kwargs, node)
            return self.opaque_call(f, args, kwargs, st, node)
        if isinstance(f, Ext):
            from .ext import call_ext
            return call_ext(self, f.name, args, kwargs, st, node)
        if isinstance(f, Method):
            from .ext import call_method
            return call_method(self, f.recv, f.name, args, kwargs, st, node)
        if isinstance(f, Val) and f.term.op == "attr":
            from .ext import call_method
            return call_method(self, Val(f.term.args[0], f.locs), f.term.args[1], args, kwargs, st, node)
        return self.opaque_call(f, args, kwargs, st, node)

    def opaque_call(self, f, args, kwargs, st, node):
        ft = self.tm(f, st)
        at = tuple(self.tm(a, st) for a in args)
        kt = tuple(sorted((k, self.tm(v, st)) for k, v in kwargs.items()))
        t = self.ev_term("call", ft, T.mk("args", *at), T.mk("kwargs", *[T.mk("kw", k, v) for k, v in kt]))
        self.event("opaque", st, node, func=ft, args=at, kwargs=dict(kt), result=t)
        return Val(t)

    def bind(self, f, args, kwargs, st, node, quiet=False):
        """Bind arguments to parameters: dict name -> Value (or None on error)."""
        a = f.node.args
        pos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        out = {}
        kwargs = dict(kwargs)
        opaque = kwargs.pop("**", None)
        starred = any(isinstance(x, Val) and x.term.op == "starred" for x in args)
        if starred:
            i = next(i for i, x in enumerate(args) if isinstance(x, Val) and x.term.op == "starred")
            t = args[i].term.args[0]
            rest = args[i + 1:]
            fill = pos[i: len(pos)]
            fill = [p for p in fill if p not in kwargs]
            args = list(args[:i]) + [Val(item(t, T.const(j))) for j in range(len(fill) - len(rest))] + (
                [args[i]] if a.vararg is not None else []) + list(rest)
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                out[pos[i]] = v
            else:
                extra.append(v)
        if extra and a.vararg is None and not quiet:
            self.issue("arity", node, f"{f.qual}: too many positional arguments", st)
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        kwextra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in out and not quiet:
                    self.issue("arity", node, f"{f.qual}: multiple values for argument {k}", st)
                out[k] = v
            elif a.kwarg is not None:
                kwextra[k] = v
            elif not quiet:
                self.issue("arity", node, f"{f.qual}: unexpected keyword argument {k}", st)
        if a.kwarg is not None:
            parts = [("kv", T.const(k), v) for k, v in kwextra.items()]
            if opaque is not None:
                parts.append(("splice", self.tm(opaque, st)))
            out[a.kwarg.arg] = self.alloc(st, DictS(parts))
        defaults = f.defaults
        if defaults is None:
            defaults = [self.eval_in_module(d, f.module) for d in a.defaults]
            f.defaults = defaults
        kwd = f.kwdefaults
        if kwd is None:
            kwd = {}
            for k, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kwd[k.arg] = self.eval_in_module(d, f.module)
            f.kwdefaults = kwd
        nd = len(defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[p] = defaults[j]
                    if isinstance(a.defaults[j], (ast.List, ast.Dict, ast.Set, ast.Call)):
                        pass
                elif opaque is not None:
                    out[p] = Val(item(self.tm(opaque, st), T.const(p)))
                else:
                    if not quiet:
                        self.issue("arity", node, f"{f.qual}: missing argument {p}", st)
                    out[p] = Val(T.sym(f"?missing {p}"))
        for k in kwonly:
            if k not in out:
                if k in kwd:
                    out[k] = kwd[k]
                elif opaque is not None:
                    out[k] = Val(item(self.tm(opaque, st), T.const(k)))
                else:
                    if not quiet:
                        self.issue("arity", node, f"{f.qual}: missing argument {k}", st)
                    out[k] = Val(T.sym(f"?missing {k}"))
        return out

    def call_func(self, f, args, kwargs, st, node):
        hook = self.hooks.get(f.qual)
        if hook is not None:
            r = hook(self, st, f, args, kwargs, node)
            if r is not None:
                return r
        if any(fr.node is f.node for fr in self.frames) or len(self.frames) > MAXDEPTH:
            self.depth_hit = True
            return self.opaque_call(f, args, kwargs, st, node)
        bound = self.bind(f, args, kwargs, st, node)
        for k, v in bound.items():
            if v is UNDEF or isinstance(v, Ite):
                v = self.resolve(v, st)
                bound[k] = v
        self.analysed.add(f.qual)
        if self.argflow is not None:
            self.argflow.append((f.qual, bound, node, self.frames[-1].module if self.frames else "?"))
        fr = self._frame(f.name, f.module, st, f.node, f.envs)
        fr.outer = st.pc
        st.pc = T.TRUE
        facts0 = st.facts
        st.facts = dict(facts0)
        st.envs[fr.env].update(bound)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                alive = True
                fr.returns = []
            else:
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_walk(f.node)):
                    self.issue("unsupported", f.node, "generator function", st)
                    v = Val(self.ev_term("generator", T.const(f.qual)))
                    alive = True
                    return v
                v = Val(T.NONE)
                alive = self.block(f.node.body, st)
                if fr.returns:
                    exits = list(fr.returns)
                    if alive:
                        exits.append((st.copy(), Val(T.NONE), None))
                    s_cur, v_cur, _ = exits[-1]
                    for s2, v2, _n in reversed(exits[:-1]):
                        c = _distinguish(s2.pc, s_cur.pc)
                        v_cur = self.merge_val(c, v2, v_cur)
                        s_cur = self.merge2(c, s2, s_cur)
                    st.take(s_cur)
                    v = v_cur
                    alive = True
        finally:
            self.frames.pop()
            if not fr.keepenv:
                st.envs.pop(fr.env, None)
            rel = st.pc
            st.pc = T.tand(fr.outer, rel) if fr.outer is not None else rel
            facts = {k: v2 for k, v2 in st.facts.items()}
            st.facts = facts
        if not alive:
            st.dead = True
            return Val(T.mk("never"))
        if not fr.returns and not isinstance(f.node, ast.Lambda):
            pass
        return v

    # ----------------------------------------------------------- construction
    def spread(self, args, n):
        """Positional arguments with one sequence of unknown length spread over the n parameters that need a value."""
        star = [i for i, a in enumerate(args) if isinstance(a, Val) and a.term.op == "starred"]
        if len(star) != 1:
            return args
        i = star[0]
        k = max(0, n - (len(args) - 1))
        return list(args[:i]) + [Val(item(args[i].term.args[0], T.const(j))) for j in range(k)] + list(args[i + 1:])

    def construct(self, ci, args, kwargs, st, node):
        hook = self.hooks.get(f"new:{ci.qual}")
        if hook is not None:
            r = hook(self, st, ci, args, kwargs, node)
            if r is not None:
                return r
        if ci.kind in ("namedtuple", "dataclass") and "__init__" not in ci.methods:
            names = [f[0] for f in ci.fields]
            fields = {}
            kwargs = dict(kwargs)
            opaque = kwargs.pop("**", None)
            args = self.spread(args, sum(1 for f in ci.fields if f[0] not in kwargs and f[2] is None))
            if len(args) > len(names):
                self.issue("arity", node, f"{ci.name}: too many arguments", st)
            for nme, v in zip(names, args):
                fields[nme] = v
            for k, v in kwargs.items():
                if k not in names:
                    self.issue("arity", node, f"{ci.name}: unexpected field {k}", st)
                elif k in fields:
                    self.issue("arity", node, f"{ci.name}: multiple values for field {k}", st)
                fields[k] = v
            for nme, _ann, d in ci.fields:
                if nme not in fields:
                    if opaque is not None:
                        fields[nme] = Val(item(self.tm(opaque, st), T.const(nme)))
                    elif d is not None:
                        fields[nme] = self.eval_in_module(d, ci.module)
                    else:
                        self.issue("arity", node, f"{ci.name}: missing field {nme}", st)
                        fields[nme] = Val(T.sym(f"?missing {nme}"))
            fields = {k: self.resolve(fields[k], st) for k in names}
            return self.finish_record(ci, fields, st, node)
        ref = self.alloc(st, InstS(ci, {}))
        init = ci.methods.get("__init__")
        if init is not None:
            self.call(Bound(init, ref), args, kwargs, st, node)
        return ref

    def finish_record(self, ci, fields, st, node):
        post = ci.methods.get("__post_init__")
        if post is None:
            if ci.kind == "dataclass" and not ci.frozen:
                return self.alloc(st, InstS(ci, fields))
            return Rec(ci, fields)
        ref = self.alloc(st, InstS(ci, dict(fields)))
        self.call(Bound(post, ref), [], {}, st, node)
        o = self.hobj(st, ref)
        if ci.kind == "dataclass" and not ci.frozen:
            return ref
        st.heap.pop(ref.loc, None)
        return Rec(ci, dict(o.attrs))

    def replace_record(self, rec, changes, st, node):
        ci = rec.cls
        names = [f[0] for f in ci.fields]
        fields = {k: rec.fields[k] for k in names if k in rec.fields}
        for k, v in changes.items():
            if k not in names:
                self.issue("arity", node, f"{ci.name}._replace: unknown field {k}", st)
                continue
            fields[k] = self.resolve(v, st)
        if ci.kind == "namedtuple":
            return Rec(ci, fields)
        return self.finish_record(ci, fields, st, node)

    # --------------------------------------------------------- mutable objects
    def container_mutation(self, ref, how, args, kwargs, st, node, fresh=False):
        ref = self.resolve(ref, st)
        if isinstance(ref, Ite):
            return self.lift(ref, st, lambda r, s: self.container_mutation(r, how, args, kwargs, s, node))
        if not isinstance(ref, Ref):
            if isinstance(ref, Val):
                self.event("mutate", st, node, how=how, loc=None, target=ref.term, locs=ref.locs,
                           args=tuple(self.tm(a, st) for a in args))
                if how == "setitem":
                    self.store_item(ref, args[0], args[1], st, node)
            return Val(T.NONE)
        o = self.hobj(st, ref)
        if not fresh:
            self.event("mutate", st, node, how=how, loc=ref.loc, target=None, locs=frozenset(),
                       args=tuple(args))
        out = Val(T.NONE)
        if o.kind == "dict":
            parts = list(o.parts)
            if how == "setitem":
                k = self.tm(args[0], st)
                parts = self._dict_set(parts, k, args[1])
            elif how == "update":
                for a in args:
                    parts = self._dict_update(parts, a, st)
                for k, v in kwargs.items():
                    parts = self._dict_set(parts, T.const(k), v)
            elif how == "setdefault":
                k = self.tm(args[0], st)
                d = args[1] if len(args) > 1 else Val(T.NONE)
                out = self.dict_get(o, k, st, node, ref, default=d)
                if all(p[0] == "kv" for p in parts):
                    parts = self._dict_set(parts, k, out)
                else:
                    parts.append(("kv", k, out))
            elif how == "pop":
                k = self.tm(args[0], st)
                d = args[1] if len(args) > 1 else None
                out = self.dict_get(o, k, st, node, ref, default=d)
                if all(p[0] == "kv" for p in parts):
                    parts = [p for p in parts if p[1] is not k]
                else:
                    parts = [("splice", T.call("dictpop", self.tm(ref, st), k))]
            elif how == "clear":
                parts = []
            elif how == "del":
                k = self.tm(args[0], st)
                if all(p[0] == "kv" for p in parts):
                    parts = [p for p in parts if p[1] is not k]
                else:
                    parts = [("splice", T.call("dictpop", self.tm(ref, st), k))]
            st.heap[ref.loc] = DictS(parts)
        elif o.kind == "list":
            parts = list(o.parts)
            if how == "append":
                parts.append(("item", args[0]))
            elif how in ("extend",):
                a = args[0]
                ll = self._listlike(self.resolve(a, st), st)
                if ll is not None:
                    parts += list(ll)
                else:
                    parts.append(("splice", self.tm(a, st)))
            elif how == "insert":
                k = self.tm(args[0], st)
                if T.is_num(k) and all(p[0] == "item" for p in parts):
                    parts.insert(int(k.args[1]), ("item", args[1]))
                else:
                    parts = [("splice", T.call("insert", self.tm(ref, st), k, self.tm(args[1], st)))]
            elif how == "pop":
                if parts and parts[-1][0] == "item" and not args:
                    out = parts.pop()[1]
                elif args and T.is_num(self.tm(args[0], st)) and all(p[0] == "item" for p in parts):
                    k = int(self.tm(args[0], st).args[1])
                    if -len(parts) <= k < len(parts):
                        out = parts.pop(k)[1]
                else:
                    out = Val(T.call("popped", self.tm(ref, st)))
                    parts = [("splice", T.call("poprest", self.tm(ref, st)))]
            elif how == "setitem":
                k = self.tm(args[0], st)
                if T.is_num(k) and all(p[0] == "item" for p in parts) and \
                        -len(parts) <= k.args[1] < len(parts):
                    parts[int(k.args[1])] = ("item", args[1])
                else:
                    parts = [("splice", T.mk("store", self.tm(ref, st), k, self.tm(args[1], st)))]
            elif how == "clear":
                parts = []
            elif how in ("sort", "reverse", "remove", "del"):
                parts = [("splice", T.call(how, self.tm(ref, st), *[self.tm(a, st) for a in args]))]
            st.heap[ref.loc] = ListS(parts)
        elif o.kind == "set":
            st.heap[ref.loc] = SetS(T.call("set" + how, o.term, *[self.tm(a, st) for a in args]))
        elif o.kind == "inst" and how == "setitem":
            f = o.cls.methods.get("__setitem__")
            if f is not None:
                return self.call(Bound(f, ref), args, {}, st, node)
        return out

    def _dict_set(self, parts, k, v):
        out = []
        done = False
        for p in parts:
            if p[0] == "kv" and p[1] is k:
                out.append(("kv", k, v))
                done = True
            else:
                out.append(p)
        if not done or any(p[0] != "kv" for p in out):
            out = [p for p in out if not (p[0] == "kv" and p[1] is k)]
            out.append(("kv", k, v))
        return out

    def _dict_update(self, parts, a, st):
        a = self.resolve(a, st)
        if isinstance(a, Ref):
            o = self.hobj(st, a)
            if o.kind == "dict":
                for p in o.parts:
                    if p[0] == "kv":
                        parts = self._dict_set(parts, p[1], p[2])
                    else:
                        parts = list(parts) + [p]
                return parts
        return list(parts) + [("splice", self.tm(a, st))]


# ----------------------------------------------------------------- helpers
def Hooked_attr(b, name):
    return Val(T.mk("attr", b.term, name), b.locs)


def vterm_obj(o, st):
    from .values import obj_term
    return obj_term(o, st, "?")


def _same_part(p, q):
    if p is q:
        return True
    if p[0] != q[0] or len(p) != len(q):
        return False
    for x, y in zip(p[1:], q[1:]):
        if x is y:
            continue
        if isinstance(x, Val) and isinstance(y, Val) and x.term is y.term:
            continue
        if isinstance(x, Ref) and isinstance(y, Ref) and x.loc == y.loc:
            continue
        if isinstance(x, Rec) and isinstance(y, Rec) and x.cls is y.cls and all(
                _same_part(("f", x.fields[k]), ("f", y.fields.get(k))) for k in x.fields):
            continue
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(
                _same_part(a, b) for a, b in zip(x, y)):
            continue
        return False
    return True


def _same_parts(a, b):
    return len(a) == len(b) and all(_same_part(p, q) for p, q in zip(a, b))


def _conj(t):
    return set(t.args) if t.op == "and" else ({t} if t is not T.TRUE else set())


def _relative(pc, base):
    """pc without the conjuncts of base."""
    b = _conj(base)
    return T.tand(*[x for x in _conj(pc) if x not in b])


def _distinguish(a, b):
    """Condition, true on a, that separates path condition a from b."""
    common = _conj(a) & _conj(b)
    r = T.tand(*[x for x in _conj(a) if x not in common])
    if r is T.TRUE:
        rb = T.tand(*[x for x in _conj(b) if x not in common])
        return T.tnot(rb)
    # a single literal whose negation is in b is enough
    for x in _conj(a):
        if T.tnot(x) in _conj(b):
            return x
    return r


def elem(src):
    if src.op == "map" and src.args[3] is T.TRUE:
        return src.args[2]
    if src.op == "call" and src.args[0] == "list" and len(src.args[1]) == 1:
        return elem(src.args[1][0])
    return T.mk("elem", src)


def item(t, i):
    if t.op in ("list", "tuple") and T.is_num(i) and i.args[0] == "int":
        k = i.args[1]
        if -len(t.args) <= k < len(t.args):
            return t.args[k]
    if t.op == "map" and t.args[3] is T.TRUE and i.op not in ("slice", "tuple"):
        return T.subst(t.args[2], {t.args[1]: item(t.args[0], i)})
    if t.op == "attr" and t.args[1] == "shape" and i is T.ZERO:
        return T.call("len", t.args[0])
    if t.op == "call" and t.args[0] == "list" and len(t.args[1]) == 1:
        return item(t.args[1][0], i)
    if t.op == "dmap" and t.args[2] is t.args[1] and t.args[4] is T.TRUE:
        return T.subst(t.args[3], {t.args[1]: i})
    if t.op == "ite" and i.op == "const":
        a, b = t.args[1], t.args[2]
        if a.op in ("list", "tuple", "ite") and b.op in ("list", "tuple", "ite"):
            return T.ite(t.args[0], item(a, i), item(b, i))
    if i.op == "slice" and i.args == (T.NONE, T.NONE, T.NONE):
        return t
    if i.op == "const" and isinstance(T.cval(i), str):
        if t.op == "store" and t.args[1].op == "const":
            return t.args[2] if t.args[1] is i else item(t.args[0], i)
        if t.op == "ite" and "store" in (t.args[1].op, t.args[2].op):
            return T.ite(t.args[0], item(t.args[1], i), item(t.args[2], i))
    return T.mk("item", t, i)


T.REBUILD_CALL["__item__"] = item


def transpose(t):
    if t.op == "call" and t.args[0] == "transpose":
        return t.args[1][0]
    return T.call("transpose", t)


def matmul(a, b):
    # scalars factor out
    return T.call("matmul", a, b)


def _is_view_index(it):
    """Basic indexing returns a view, indexing with arrays or lists a copy."""
    if it.op in ("slice", "ellipsis"):
        return True
    if T.is_num(it):
        return True
    if it.op == "tuple":
        return all(_is_view_index(x) or x is T.NONE for x in it.args)
    if it.op in ("list", "cmp", "map", "not", "and", "or"):
        return False
    # a variable index: may be an integer (view) or an array (copy)
    return True


def _maybe_undef(v):
    if v is UNDEF:
        return True
    if isinstance(v, Ite):
        return _maybe_undef(v.a) or _maybe_undef(v.b)
    return False


def _undef_cond(v):
    if v is UNDEF:
        return T.TRUE
    if isinstance(v, Ite):
        return T.ite(v.cond, _undef_cond(v.a), _undef_cond(v.b))
    return T.FALSE


def _strip_undef(v):
    if isinstance(v, Ite):
        a, b = _strip_undef(v.a), _strip_undef(v.b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if a is v.a and b is v.b:
            return v
        if isinstance(a, Val) and isinstance(b, Val):
            return Val(T.ite(v.cond, a.term, b.term), a.locs | b.locs)
        return Ite(v.cond, a, b)
    return v


def _is_bool_valued(t):
    return True


def _exc_name(h):
    if h.type is None:
        return "BaseException"
    return ast.unparse(h.type)


def _as_load(n):
    n = ast.parse(ast.unparse(n), mode="eval").body
    return n


def _own_walk(node):
    """Walk a function body without descending into nested functions."""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))


def _local_names(node):
    out = set()
    if isinstance(node, ast.Lambda):
        for a in node.args.args + node.args.kwonlyargs:
            out.add(a.arg)
        return out
    for x in _own_walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            pass
    # names bound only inside comprehensions are not locals of the function
    comp_only = set()
    nocomp = set()
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            nocomp.add(x.name)
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in x.generators:
                for y in ast.walk(g.target):
                    if isinstance(y, ast.Name):
                        comp_only.add(y.id)
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    nocomp.add(y.target.id)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            nocomp.add(x.id)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                nocomp.add((a.asname or a.name).split(".")[0])
        if isinstance(x, ast.ExceptHandler) and x.name:
            nocomp.add(x.name)
        stack.extend(ast.iter_child_nodes(x))
    out -= (comp_only - nocomp)
    a = node.args
    for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    return out


_CMP = {
    "Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=",
    "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in",
}

import builtins as _b  # noqa: E402

BUILTINS = set(dir(_b))

CONTAINER_METHODS = {
    "list": {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "copy",
             "count", "index"},
    "dict": {"update", "setdefault", "pop", "clear", "items", "keys", "values", "get", "copy",
             "popitem"},
    "set": {"add", "discard", "remove", "update", "union", "intersection", "difference", "copy"},
    "inst": set(),
}

ARRAY_ATTRS = {"shape", "ndim", "size", "dtype", "nbytes"}
ARRAY_METHODS = {
    "mean", "sum", "min", "max", "std", "var", "any", "all", "argmin", "argmax", "argsort",
    "reshape", "flatten", "ravel", "squeeze", "transpose", "clip", "cumsum", "dot", "round",
    "prod", "repeat", "copy", "astype", "item", "tolist", "nonzero", "fill", "sort", "put",
    "resize", "partition", "setflags", "itemset", "setdefault", "swapaxes", "trace", "diagonal",
    "get", "keys", "values", "format", "join", "split", "lower", "upper", "startswith", "endswith",
    "predict", "update", "pop", "extend", "insert", "clear", "idxmin", "idxmax", "strip", "replace",
}
RNG_METHODS = {
    "uniform", "normal", "multivariate_normal", "integers", "random", "choice", "permutation",
    "standard_normal", "shuffle", "exponential", "spawn",
}


def normext(name):
    if name == "np" or name.startswith("np."):
        name = "numpy" + name[2:]
    return name


def extattr(name):
    name = normext(name)
    if name in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.infty", "numpy.PINF"):
        return Val(T.INF)
    if name == "numpy.NINF":
        return Val(T.NINF)
    if name in ("numpy.nan", "math.nan", "numpy.NaN"):
        return Val(T.NAN)
    if name in ("numpy.pi", "math.pi"):
        return Val(T.PI)
    if name == "numpy.newaxis":
        return Val(T.NONE)
    return Ext(name)


__all__ = ["Interp", "State", "Event", "Component", "Hooked", "Value", "elem", "item"]
