"""Obligations, violations, evidence."""
import json
import os
import time

from . import terms as T

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, title, tier, ctx):
        self.prop = prop
        self.title = title
        self.tier = tier
        self.ctx = ctx
        self.t0 = time.time()
        self.obligations = []  # (rule, construct, text, ok, detail)
        self.facts = []
        self.assumptions = []
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def note(self, text):
        if text not in self.facts:
            self.facts.append(text)

    def ob(self, ok, rule, construct, text, detail=""):
        """One proof obligation.  construct: 'file:function' (no line numbers)."""
        self.obligations.append((rule, construct, text, bool(ok), str(detail)))
        return bool(ok)

    def violations(self):
        out, seen = [], set()
        for rule, construct, text, ok, detail in self.obligations:
            if ok:
                continue
            key = f"{rule}|{construct}|{text}"
            if key in seen:
                continue
            seen.add(key)
            out.append({"key": key, "rule": rule, "construct": construct, "what": text, "detail": detail})
        return out


def load_known():
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out


def where(ctx, module, func):
    try:
        return f"{ctx.project.rel(module)}:{func}"
    except Exception:
        return f"{module}:{func}"


def ev_where(ctx, e):
    return where(ctx, e.module, e.func)


def ev_line(e):
    return getattr(e.node, "lineno", 0)


def same_key(a, b):
    """Keys are rule|file:function|what; moving code into another function of the file does not make a new finding."""
    a, b = a.split("|"), b.split("|")
    return len(a) == len(b) and all(x.split(":")[0] == y.split(":")[0] if i == 1 else x == y for i, (x, y) in enumerate(zip(a, b)))


def finish(rep, seed):
    """Print results, write the evidence file, return the exit code."""
    known = [k for k in load_known() if k.get("status") == "known" and k["property"] == rep.prop]
    viol = rep.violations()
    reported, listed = [], []
    for v in viol:
        m = [k for k in known if same_key(k["key"], v["key"])]
        (listed if m else reported).append((v, m))
    n = len(rep.obligations)
    ok = sum(1 for o in rep.obligations if o[3])
    ctx = rep.ctx
    ev_dir = os.environ.get("SA_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    print(f"property {rep.prop}: {rep.title}")
    print(f"  source digest {ctx.project.digest()}; {len(ctx.project.modules) - 1} modules; "
          f"{len(ctx.functions)} functions analysed; {ctx.callsites} call sites inlined or summarised")
    for r, t in rep.rules.items():
        k = [o for o in rep.obligations if o[0] == r]
        print(f"  rule {r}: {t} [{sum(1 for o in k if o[3])}/{len(k)} obligations]")
    if os.environ.get("SA_VERBOSE"):
        for rule, construct, text, good, detail in rep.obligations:
            print(f"    {'ok  ' if good else 'FAIL'} {rule} {construct}: {text} {'' if good else detail}")
    for v, m in listed:
        print(f"KNOWN-FINDING: property={rep.prop} {m[0]['what']}")
    for i, (v, _) in enumerate(reported):
        rp = os.path.join(ev_dir, f"{rep.prop}-violation-{i + 1}.json")
        with open(rp, "w") as f:
            json.dump(v, f, indent=1)
        print(f"  violated: rule {v['rule']} at {v['construct']}: {v['what']} {v['detail']}")
        print(f"VIOLATION property={rep.prop} replay={rp}")
    evidence = {
        "property": rep.prop,
        "tier": rep.tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (
                "Interprocedural gated-SSA value-flow analysis of the current source of the package; "
                "every obligation below is a statement about a construct of that source, decided by "
                "normal-form comparison, qualifier inference or dataflow. Rules: "
                + "; ".join(f"{r}: {t}" for r, t in rep.rules.items())),
            "obligations": n,
            "discharged": ok,
            "functions_analysed": len(ctx.functions),
            "call_sites": ctx.callsites,
            "source_digest": ctx.project.digest(),
            "what": [f"{'ok' if o[3] else 'open'} {o[0]} {o[1]}: {o[2]}" for o in rep.obligations][:400],
            "notes": rep.facts,
            "open": [v for v, _ in reported],
        },
        "wall_s": round(time.time() - rep.t0, 3),
        "assumptions": rep.assumptions,
        "violations": len(reported),
    }
    with open(os.path.join(ev_dir, f"{rep.prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if reported:
        return 1
    print(f"  held: {ok}/{n} obligations discharged" + (f", {len(listed)} known finding(s)" if listed else ""))
    return 0


def show(t, n=220):
    s = T.show(t) if isinstance(t, T.Term) else str(t)
    return s if len(s) <= n else s[: n - 3] + "..."
