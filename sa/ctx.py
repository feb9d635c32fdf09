"""Shared state of one run: the project and cached analyses."""
import sys

from . import lemma, models, terms as T
from .interp import Interp
from .project import Broken, Project
from .proof import Flow, Prov
from .values import Func, Val

sys.setrecursionlimit(30000)


class Ctx:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.project = Project()
        self.functions = set()
        self.callsites = 0
        self._main = {}
        self._lemma = {}
        self._dec = None
        self.unanalysed = []

    def count(self, it):
        self.functions |= it.analysed
        self.callsites += it.callsites

    def deciders(self):
        if self._dec is None:
            self._dec = models.deciders(self.project)
        return self._dec

    def main(self, decider):
        if decider not in self._main:
            label, _ = self.deciders()
            m = models.run_main(self.project, decider, label)
            self.count(m.it)
            m.flow = Flow(m.it)
            m.prov = Prov(m.flow)
            m.loop = self.main_loop(m)
            m.result_fields = self.result(m)
            self._main[decider] = m
        return self._main[decider]

    def abstract(self):
        """The main loop with abstract components (roles)."""
        if "abstract" not in self._lemma:
            m = models.run_loop(self.project)
            self.count(m.it)
            m.flow = Flow(m.it)
            ev = [e for e in m.it.events if e.kind == "role" and e.data["role"] == "accept"]
            if len(ev) != 1 or not ev[0].loops:
                raise Broken("the acceptance rule is not applied exactly once inside the main loop")
            m.acc = ev[0]
            m.loop = m.it.loops[ev[0].loops[0]]
            m.result_fields = self.result(m)
            self._lemma["abstract"] = m
        return self._lemma["abstract"]

    def program(self):
        """Modules of the optimizer (plotting excluded)."""
        out = []
        for n, m in sorted(self.project.modules.items()):
            if n == "oracle" or any(k in m.source for k in ("import plotly", "from plotly", "import matplotlib", "import seaborn")):
                continue
            out.append(m)
        return out

    def sweep(self):
        """Every function of the optimizer analysed on arbitrary arguments: [(func, interp, state, result)]."""
        if "sweep" not in self._lemma:
            import ast
            out = []
            for m in self.program():
                for name, d in m.defs.items():
                    if d[0] != "def" or not isinstance(d[1], ast.FunctionDef):
                        continue
                    # user-supplied and built-in components are analysed on their own
                    hooks = {} if m.name.endswith("get_component") else {"tranquilo.get_component.get_component": models.component}
                    it = Interp(self.project, hooks)
                    it.components, it.added, it.versions = [], {}, {}
                    f = it.find_func(name, m.name)
                    st = lemma.start(it, m.name)
                    a = {p: Val(T.sym(p), frozenset({f"param:{p}"})) for p in lemma.params(f)}
                    try:
                        r = it.call(f, [], a, st, f.node)
                    except Exception as e:  # outside the fragment: the function is not covered
                        self.unanalysed.append(f"{m.name}.{name}: {type(e).__name__} {e}"[:150])
                        continue
                    self.count(it)
                    out.append((f, it, st, it.resolve(r, st)))
            self._lemma["sweep"] = out
        return self._lemma["sweep"]

    def mains(self):
        return [self.main(d) for d in self.deciders()[1]]

    def main_loop(self, m):
        """The outermost loop that contains the acceptance decision."""
        acc = [e for e in m.it.events if e.kind == "accepted"]
        if not acc:
            raise Broken("no acceptance decision reached in the whole-program analysis")
        if len(acc) > 1:
            raise Broken("the acceptance rule is applied at several call sites")
        e = acc[0]
        if not e.loops:
            raise Broken("the acceptance decision is not inside a loop")
        m.accepted = e
        m.accept_call = [x for x in m.it.events if x.kind == "accept"][-1]
        return m.it.loops[e.loops[0]]

    def result(self, m):
        r = m.result
        v = m.it.resolve(r, m.st)
        from .values import Ref, Rec
        if isinstance(v, Ref):
            o = m.it.hobj(m.st, v)
            if o.kind == "dict":
                k = o.known()
                if k is not None:
                    return {a: b for a, b in k.items()}
        if isinstance(v, Rec):
            return dict(v.fields)
        raise Broken("the result of the optimizer is not a dict with known keys")

    def run(self, func, args=None, hooks=None, comp_call=None, module=None, facts=(), key=None):
        it, st, r = lemma.run(self.project, func, args, hooks, comp_call, module, facts)
        self.count(it)
        return it, st, r

    def where(self, qual):
        """'file:function' for a function name of the package."""
        hits = []
        for m in self.project.modules.values():
            d = m.defs.get(qual)
            if d and d[0] == "def":
                hits.append(m.name)
        if len(hits) == 1:
            return f"{self.project.rel(hits[0])}:{qual}"
        return qual

    def sym(self, name, arr=True):
        return Val(T.sym(name), frozenset({f"param:{name}"}) if arr else frozenset())
