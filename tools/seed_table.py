#!/usr/bin/env python3
"""Development only: rewrites the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seeded_results.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(HERE + "/tools/seeded_results.json"))
ids = sorted(os.listdir(HERE + "/seeded"))
res = {k: v for k, v in res.items() if k in ids}
json.dump(res, open(HERE + "/tools/seeded_results.json", "w"), indent=1, sort_keys=True)
rows = []
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
    r = res.get(i)
    rows.append((m["property"], i, m["needs"].replace("|", "/"), ", ".join(r["caught"]) or "**none**" if r else "not run yet"))
rows.sort()
s = open(HERE + "/DESIGN.md").read()
head = "## Seeded bugs and which checks catch them\n"
s = s[:s.index(head)] + head + "\n%d planted bugs, each confirmed by `tools/seeded_run.py` in a scratch copy (builds, passes the stable tests, its demonstration\ntells it from the clean tree). \"caught by\" lists the checks that were run on it and reported it; usually only that of its own property was run.\n\n| property | bug | needs | caught by |\n|---|---|---|---|\n" % len(rows)
s += "".join("| %s | %s | %s | %s |\n" % r for r in rows)
open(HERE + "/DESIGN.md", "w").write(s)
