"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MISSED = {"pgm-no-truncate": "writing over longer existing files was added", "globalavg-row": "images with more than 65535 pixels were added", "weights-equal": "networks with equal parameter values were added",
          "cleanup-flat": "repeated create/destroy with heap balance was added", "check-reference-order": "models with more than ten outputs were added", "eq-sign": "pairs of opposite sign below the tolerance were added",
          "dummy-count": "every run of the benchmark program is recorded now", "dummy-once": "as dummy-count", "dummy-rows": "as dummy-count",
          "eps-rounded": "epsilons which no float of few digits carries were added", "pad-single": "pads of one side only were added", "nop-used-twice": "outputs read several times by one consumer were added",
          "pool-flat-batches": "batches in the full padding product were added", "gavg-nan": "NaN isolation was added", "print-batches": "every row and batch on a line of its own is required now"}
rows = []
for f in glob.glob(D + "/seeded/*/meta.json"):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f)); clean = lambda s: s.replace("|", "/")
    rows.append("| %s | %s | %s%s |" % (m["property"], i, clean(m["needs"]), " (**first missed: %s**)" % MISSED[i] if i in MISSED else ""))
s = open(D + "/DESIGN.md").read()
i = s.index("| check | bug | needs |"); j = s.index("\n\n", i)
open(D + "/DESIGN.md", "w").write(s[:i] + "| check | bug | needs |\n|---|---|---|\n" + "\n".join(sorted(rows)) + s[j:])
print(len(rows), "bugs")
