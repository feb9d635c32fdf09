"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/properties.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

S = "src/tranquilo/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(
        row={
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [S + f for f in files],
                "state": [dict(zip(("name", "meaning", "where"), (a, b, S + c))) for a, b, c in state],
                "mechanism": [dict(name=a, where=S + b) for a, b in mechanism],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }, technique=technique, note=note, na=na))


prop("C01", "Every evaluated point and the reported solution respect the bounds",
     "Given a start point inside the lower and upper parameter bounds, the criterion function is only ever called at "
     "points that satisfy both bounds, no matter which sampler, subproblem solver or acceptance rule is selected. The "
     "centre of every trust region and the reported solution satisfy the bounds as well. This also holds when only "
     "lower or only upper bounds are given.",
     ["inputs", "histories", "configurations"],
     "all start points inside the bounds, all bounds (one sided, partially infinite), all criterion functions, all built-in components, all iterations",
     "Tests run a handful of problems with the default components and check the solution, not every evaluated point.",
     ["region.py", "acceptance_decision.py", "sample_points.py", "solve_subproblem.py", "tranquilo.py"],
     [("points are mapped back from the unit region and clipped", "region.py:Region.map_from_unit"),
      ("line search points are clipped", "acceptance_decision.py:accept_classic_line_search"),
      ("samplers draw inside the region", "sample_points.py")],
     observe=["arguments passed to the criterion function", "solution_x", "states[*].trustregion.center"],
     technique="interprocedural value-flow analysis with an in-bounds qualifier (sources, clip sanitizers, sinks)",
     note="Sound over the abstracted program for built-in components; floating point rounding of rng.uniform and user supplied components are outside.")

prop("C02", "Incumbent point, value and index always belong to the same evaluated history entry",
     "At every iteration the incumbent parameter vector, its criterion value and its history index belong to the same "
     "evaluated entry of the history, an accepted candidate becomes the incumbent, and a rejected candidate leaves the "
     "incumbent unchanged. The next trust region is centred at the incumbent. The reported solution and criterion value "
     "are those of the incumbent of the last iteration.",
     ["inputs", "histories", "configurations"],
     "all criterion functions, iteration histories and built-in acceptance rules",
     "Tests check final results of a few smooth problems; a mixed-up triple needs a specific sequence of rejections, re-evaluations or line search wins.",
     ["acceptance_decision.py", "tranquilo.py"],
     [("acceptance result", "acceptance_decision.py:_get_acceptance_result"), ("state update", "tranquilo.py:_internal_tranquilo")],
     state=[("incumbent", "x, fval, index of the state", "tranquilo.py:State")],
     observe=["states", "solution_x", "solution_criterion"],
     technique="provenance inference over gated-SSA value flow, coinductive over the main loop",
     note="Relies on the history and evaluation contracts established by C05, C09 and C10.")

from properties_more import add  # noqa: E402

add(prop)


def main():
    from sa.rules import RULES
    rows, checks, na = [], [], []
    for p in P:
        id = p["row"]["id"]
        if p["na"]:
            rows.append(p["row"])
            na.append({"property": id, "reason": p["na"]})
        elif id in RULES:
            rows.append(p["row"])
            checks.append({
                "property": id,
                "quick_cmd": f"python3 -m sa {id} --tier quick",
                "thorough_cmd": f"python3 -m sa {id} --tier thorough",
                "evidence_file": f"evidence/{id}.json",
                "technique": p["technique"], "level": "other", "level_note": p["note"]})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -c \"import sa\"", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
    print(len(rows), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()
