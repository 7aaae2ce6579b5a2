#!/opt/venv/bin/python
"""Refresh the table of planted bugs in DESIGN.md (from seeded/*/meta.json and /tmp/seed_results.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open("/tmp/seed_results.json"))
rows, caught = ["| planted bug | needs | caught by (first failing run reported, seed 1) |", "|---|---|---|"], 0
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    got = []
    for p, (code, lines) in sorted(res.get(i, {}).items()):
        runs = [re.search(r"-(\d+)\.json", l).group(1) for l in lines if "VIOLATION" in l]
        if code == 1 and runs:
            got.append("%s (run %s)" % (p, min(runs, key=int)))
    caught += bool(got)
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/").replace("\n", " "), ", ".join(got) or "**missed**"))
text = "%d planted bugs, %d caught by the quick check of their property:\n\n%s" % (len(rows) - 2, caught, "\n".join(rows))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "\n<!-- /planted -->"
s = s[:s.index(a) + len(a)] + text + s[s.index(b):]
open(p, "w").write(s)
print(len(rows) - 2, caught)
