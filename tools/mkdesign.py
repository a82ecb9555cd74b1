"""Fills the tables of DESIGN.md between its markers."""
import json, os, re, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = open(V + "/DESIGN.md").read()
# What was added to a check after it missed a planted bug.
ADDED = json.load(open(V + "/tools/added.json"))
fixes = "".join("* %s (%s): %s\n" % (f["commit"], f["property"], f["what"]) for f in json.load(open(V + "/known_findings.json"))["findings"] if f["status"] == "fixed")
rows = []
for i in os.listdir(V + "/seeded"):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append((m["property"], i, m["needs"].replace("|", "/"), ADDED.get(i, "")))
seeds = "| property | bug | needs | added to the check that missed it |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
for k, t in (("FIXES", fixes), ("SEEDS", seeds)):
    d = d.replace("@@%s@@" % k, "<!-- %s -->\n<!-- /%s -->" % (k, k))
    d = re.sub(r"<!-- %s -->\n.*?<!-- /%s -->" % (k, k), lambda _: "<!-- %s -->\n%s<!-- /%s -->" % (k, t, k), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
