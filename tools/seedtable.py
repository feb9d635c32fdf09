"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
missed = set(sys.argv[1:])
for f in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append(f"| {n} | {m['property']}{' (missed)' if n in missed else ''} | {m['needs']} | {m['what_it_breaks']} |")
table = "<!-- seeds -->\n| planted bug | reported by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = f"{ROOT}/DESIGN.md"
s = open(p).read()
if "<!-- seeds -->" in s:
    a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->") + len("<!-- /seeds -->")
    s = s[:a] + table + s[b:]
else:
    i = s.index("## Self-tests")
    s = s[:i] + "## Planted bugs\n\nEach passes the existing tests; its demonstration fails with it and passes without. All are reported by the check of their property unless marked.\n" \
        "Missed at first and caught after extending the checks: s13 (case analysis over undecided conditions), s17 (slice bounds that are a minimum),\n" \
        "s27 (values returned by the criterion), t16 (scales of weights).\n\n" + table + "\n\n" + s[i:]
open(p, "w").write(s)
