"""python3 -m sa <property> [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import traceback

from .ctx import Ctx
from .project import Broken
from .report import Report, finish


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from .rules import RULES
    if a.property not in RULES:
        print(f"unknown property {a.property}")
        return 3
    modname, title = RULES[a.property]
    try:
        ctx = Ctx(a.tier)
        rep = Report(a.property, title, a.tier, ctx)
        mod = importlib.import_module(f"sa.rules.{modname}")
        getattr(mod, f"check_{a.property}")(ctx, rep)
    except Broken as e:
        print(f"ANALYSIS-ERROR property={a.property}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={a.property}: internal error of the analysis")
        return 2
    return finish(rep, seed)


if __name__ == "__main__":
    sys.exit(main())
