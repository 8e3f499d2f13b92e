#!/usr/bin/env python3
"""design.py - fills the tables of DESIGN.md from known_findings.json and seeded/*/meta.json (a writing aid; no check uses it)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = os.path.join(V, "DESIGN.md"); s = open(p).read()
def put(mark, rows):
    global s
    s = re.sub(r"(<!-- %s -->)\n.*?(?=\n## )" % mark, lambda m: m.group(1) + "\n" + "\n".join(rows) + "\n", s, flags=re.S)
k = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
put("findings", ["| property | state | what |", "|---|---|---|"] + ["| %s | %s | %s |" % (e["property"], "fix " + e["commit"] if e["status"] == "fixed" else "**known**", e["what"]) for e in k])
r = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
res = json.load(open(os.path.join(V, "tool", "planted_results.json"))) if os.path.exists(os.path.join(V, "tool", "planted_results.json")) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = f.split("/")[-2]; m = json.load(open(f)); r.append("| %s | %s | %s | %s |" % (i, res.get(i, m["property"]), m["needs"], m["what_it_breaks"]))
put("planted", r); open(p, "w").write(s)
