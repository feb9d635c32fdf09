"""Package-wide queries: sources of nondeterminism and state that outlives a call."""
import ast

MUTATING = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault",
            "popitem", "add", "discard", "fill", "put", "resize", "setflags", "setfield", "itemset"}
MUTABLE_CALLS = {"dict", "list", "set", "defaultdict", "OrderedDict", "Counter", "deque", "zeros", "ones", "empty", "array",
                 "full", "count", "cycle"}
SOURCES = ("random.", "secrets.", "uuid.", "time.", "os.urandom", "os.environ", "os.getenv", "os.getpid", "datetime.datetime.now",
           "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "threading.get_ident", "socket.", "platform.", "tempfile.")
NP_OK = {"default_rng", "Generator", "SeedSequence", "PCG64", "PCG64DXSM", "Philox", "MT19937", "SFC64", "BitGenerator"}
SLEEP = {"time.sleep"}


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return n.id, list(reversed(parts))
    return None, None


class Scope(ast.NodeVisitor):
    """Walk a module, knowing the enclosing function and its local names."""

    def __init__(self, module, found):
        self.m, self.found = module, found
        self.stack = []

    # local names shadow imports
    def shadowed(self, name):
        return any(name in s[1] for s in self.stack)

    def fname(self):
        return ".".join(s[0] for s in self.stack) or "<module>"

    def visit_FunctionDef(self, n):
        for d in n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)
        loc = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
        for extra in (n.args.vararg, n.args.kwarg):
            if extra:
                loc.add(extra.arg)
        glob = set()
        for s in ast.walk(n):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                loc.add(s.id)
            if isinstance(s, ast.Global):
                glob |= set(s.names)
        self.stack.append((n.name, loc - glob, n))
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.stack.append(("<lambda>", {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}, n))
        self.visit(n.body)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append((n.name, set(), n))
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def resolve(self, n):
        root, parts = dotted(n)
        if root is None or self.shadowed(root):
            return None
        d = self.m.defs.get(root)
        if d is None:
            return ".".join([root] + parts) if root in ("hash", "id") and not parts else None
        if d[0] == "import":
            return ".".join([d[1]] + parts)
        if d[0] == "from":
            return ".".join([d[1], d[2]] + parts)
        return None

    def visit_Attribute(self, n):
        r = self.resolve(n)
        if r:
            self.found.append((self.fname(), n, r))
        else:
            self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            r = self.resolve(n)
            if r:
                self.found.append((self.fname(), n, r))


def references(module):
    found = []
    Scope(module, found).visit(module.tree)
    return found


def canonical(name):
    return name.replace("np.random", "numpy.random")


def is_source(name):
    name = canonical(name)
    if name in SLEEP:
        return False
    if name in ("hash", "id"):
        return True
    if name.startswith("numpy.random."):
        return name.split(".")[2] not in NP_OK
    if name.startswith("scipy.stats.") and name.endswith(".rvs"):
        return True
    return name.startswith(SOURCES)


def mutable_expr(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        _, parts = dotted(e.func)
        name = parts[-1] if parts else (e.func.id if isinstance(e.func, ast.Name) else None)
        return name in MUTABLE_CALLS or name in NP_OK or name == "Random"
    return False


def root_name(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def origins(e):
    """Names whose object (or a part of it) an expression without calls can denote."""
    if isinstance(e, (ast.Attribute, ast.Subscript)):
        return origins(e.value)
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, ast.IfExp):
        return origins(e.body) | origins(e.orelse)
    if isinstance(e, ast.BoolOp):
        return set().union(*[origins(v) for v in e.values])
    if isinstance(e, ast.NamedExpr):
        return origins(e.value)
    return set()


def aliases(own):
    """Local name -> names it can stand for, for names that are only ever bound to expressions without calls."""
    bound = {}
    for n in own:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            bound.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, ast.NamedExpr):
            bound.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            bound.setdefault(n.target.id, []).append(None)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            bound.setdefault(n.id, []).append("store")
    out = {}
    for k, vs in bound.items():
        values = [v for v in vs if v != "store"]
        if len(values) * 2 == len(vs) and all(v is not None and origins(v) for v in values):
            out[k] = set().union(*[origins(v) for v in values])
    for _ in range(4):
        out = {k: set().union(*[{r} | out.get(r, set()) for r in v]) for k, v in out.items()}
    return out


def parameters(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs]


def passed(call, fn):
    """(parameter, argument) pairs of a call."""
    pos, kwonly = parameters(fn)
    for p, e in zip(pos, call.args):
        if isinstance(e, ast.Starred):
            break
        yield p, e
    for k in call.keywords:
        if k.arg in pos or k.arg in kwonly:
            yield k.arg, k.value


def changed_parameters(modules):
    """Function name (unique in the package) -> (definition, parameters whose object it changes in place)."""
    defs = {}
    for m in modules:
        for st in m.tree.body:
            if isinstance(st, ast.FunctionDef):
                defs.setdefault(st.name, []).append(st)
    defs = {k: v[0] for k, v in defs.items() if len(v) == 1}
    out = {k: set() for k in defs}
    facts = {}
    for k, fn in defs.items():
        own = list(body_nodes(fn))
        al = aliases(own)
        facts[k] = own, al, {n.id for n in own if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    again = True
    while again:
        again = False
        for k, fn in defs.items():
            own, al, stores = facts[k]
            params = set(sum(parameters(fn), [])) - stores
            hit = set()
            for n in own:
                for tgt, _ in writes(n):
                    hit |= origins(tgt)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in defs:
                    for p, e in passed(n, defs[n.func.id]):
                        if p in out[n.func.id]:
                            hit |= origins(e)
            hit |= set().union(*[al.get(r, set()) for r in hit]) if hit else set()
            new = hit & params
            if not new <= out[k]:
                out[k] |= new
                again = True
    return {k: (defs[k], v) for k, v in out.items() if v}


def hidden_state(module, changers=None):
    """[(function, node, what)] writes to objects that outlive a call."""
    out = []
    changers = changers or {}
    mutable_globals = {}
    classes = {}
    for st in module.tree.body:
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                if isinstance(t, ast.Name):
                    mutable_globals[t.id] = st.value
        if isinstance(st, ast.ClassDef):
            classes[st.name] = st
    funcs = {n for n, d in module.defs.items() if d[0] == "def"}

    def walk(fn, qual, outer_locals):
        args = fn.args
        names = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs}
        for extra in (args.vararg, args.kwarg):
            if extra:
                names.add(extra.arg)
        glob = set()
        stores = set()
        own = list(body_nodes(fn))
        for s in own:
            if isinstance(s, ast.Global):
                glob |= set(s.names)
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                stores.add(s.id)
        local = (names | stores | outer_locals) - glob
        for g in sorted(glob & stores):
            out.append((qual, fn, f"assigns the global {g}"))
        defaults = {}
        pos = args.posonlyargs + args.args
        for a, d in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            defaults[a.arg] = d
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if d is not None:
                defaults[a.arg] = d
        shared = {a for a, d in defaults.items() if mutable_expr(d) and a not in stores}
        al = aliases(own)
        for s in own:
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in changers and s.func.id not in local:
                callee, changed = changers[s.func.id]
                handed = [(p, o) for p, e in passed(s, callee) if p in changed for r in sorted(origins(e)) for o in sorted({r} | al.get(r, set()))]
                for p, o in handed:
                    if o in shared:
                        out.append((qual, s, f"the default of its parameter {o} is changed by {s.func.id}"))
                    elif o not in local and o in mutable_globals:
                        out.append((qual, s, f"the module-level object {o} is changed by {s.func.id}"))
            for tgt, how in writes(s):
                for o in sorted(set().union(*[al.get(r, set()) for r in origins(tgt)])):
                    if o in shared:
                        out.append((qual, s, f"changes the default of its parameter {o}"))
                    elif o not in local and o in mutable_globals:
                        out.append((qual, s, f"changes the module-level object {o}"))
                r = root_name(tgt)
                if r is None:
                    continue
                if r in shared:
                    out.append((qual, s, f"changes the default of its parameter {r}"))
                elif r not in local and r in mutable_globals:
                    out.append((qual, s, f"changes the module-level object {r}"))
                elif how != "call" and r not in local and (r in funcs or module.defs.get(r, ("",))[0] in ("import", "from")):
                    out.append((qual, s, f"changes attributes of {r}"))
        for s in own:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                walk(s, qual + "." + s.name, local)

    def cls(c):
        shared = set()
        assigned = set()
        for s in c.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and mutable_expr(s.value):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name):
                        shared.add(t.id)
        for s in ast.walk(c):
            if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store) and isinstance(s.value, ast.Name) and s.value.id == "self":
                assigned.add(s.attr)
        for s in c.body:
            if isinstance(s, ast.FunctionDef):
                walk(s, c.name + "." + s.name, set())
                for q in body_nodes(s):
                    for tgt, how in writes(q):
                        a = tgt
                        while isinstance(a, ast.Subscript) or (isinstance(a, ast.Attribute) and not (
                                isinstance(a.value, ast.Name))):
                            a = a.value
                        if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.attr in shared and (
                                (a.value.id in ("self", "cls") and a.attr not in assigned) or a.value.id == c.name):
                            out.append((c.name + "." + s.name, q, f"changes the class attribute {a.attr}"))

    for st in module.tree.body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            walk(st, st.name, set())
        elif isinstance(st, ast.ClassDef):
            cls(st)
    return out


def body_nodes(fn):
    """Nodes of a function without those of nested functions (their heads included)."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def writes(n):
    """(target expression, how) of in-place changes made by the node itself."""
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
            for e in ast.walk(t):
                if isinstance(e, (ast.Subscript, ast.Attribute)) and isinstance(e.ctx, ast.Store):
                    yield e, "store"
    elif isinstance(n, ast.Delete):
        for t in n.targets:
            if isinstance(t, (ast.Subscript, ast.Attribute)):
                yield t, "delete"
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING:
        yield n.func.value, "call"
