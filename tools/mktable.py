"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 "izzo-near-equatorial": "rotations about any axis, nearly equatorial images", "mcelreath-minimum-window": "times just above the minimum",
 "positions-checked-once": "arrays overwritten in place", "readme-append-tabs": "tabs and control characters", "solver-name-first-word": "foreign solver names",
    "kepler-hyperbolic-large": "anomalies to 700, tolerance of the last digits", "raan-arccos": "nodes next to the axes, judged on their own",
    "report-skips-broken": "spoiled results files",
}
old = open(V + "/DESIGN.md").read()
for m in re.finditer(r"^\| `([a-z0-9A-Z-]+)` \* \|.*\| ([^|]*) \|$", old, re.M):
    MISSED.setdefault(m[1], m[2])
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
rows.sort()
t = "| bug | caught by | what it breaks | needs | extension |\n|---|---|---|---|---|\n" + "".join(
    "| `%s`%s | %s | %s | %s | %s |\n" % (d, " *" if d in MISSED else "", p, w, n, MISSED.get(d, "")) for p, d, w, n in rows)
i = old.index("<!-- table -->")
open(V + "/DESIGN.md", "w").write(old[:i] + "<!-- table -->\n\n" + t)
