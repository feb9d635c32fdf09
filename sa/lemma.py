"""Run one function of the package on symbolic arguments."""
import ast

from . import terms as T
from .interp import Interp, State
from .values import Func, Val


def start(interp, module):
    st = State()
    fr = interp._frame("<analysis>", module, st, None)
    interp.frames.append(fr)
    return st


def params(f):
    a = f.node.args
    return [x.arg for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs]


def run(project, func, args=None, hooks=None, comp_call=None, module=None, facts=()):
    """Analyse `func` (name or Func) with keyword arguments `args` (missing
    parameters become symbols owned by the caller).  Returns (interp, state, value)."""
    it = Interp(project, hooks or {}, comp_call)
    f = it.find_func(func, module) if isinstance(func, str) else func
    st = start(it, f.module if isinstance(f, Func) else "tranquilo.tranquilo")
    vals = dict(args or {})
    if isinstance(f, Func):
        a = f.node.args
        for p in params(f):
            if p not in vals:
                vals[p] = Val(T.sym(p), frozenset({f"param:{p}"}))
    for c, v in facts:
        st.assume(c, v)
    if callable(vals):
        vals = vals(it, st)
    r = it.call(f, [], vals, st, f.node if isinstance(f, Func) else ast.parse("0").body[0])
    return it, st, r
