#!/usr/bin/env python3
"""gen.py - writes properties.jsonl and MANIFEST.json from tool/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tool")); import spec
def line(pid, p):
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    for f in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]: assert os.path.exists(os.path.join("/repo", f)), (pid, f)
    return json.dumps(dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"], anchors=p["anchors"]))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, p in spec.PROPERTIES.items(): f.write(line(pid, p) + "\n")
    for p in spec.NOT_APPLICABLE: f.write(line(p["id"], p) + "\n")
checks = [dict(property=pid, quick_cmd="python3 tool/check.py %s quick" % pid, thorough_cmd="python3 tool/check.py %s thorough" % pid, technique=p.get("technique", spec.TECH), level=spec.LEVEL,
    level_note="Bounded: " + p["bounds"] + ". Outside: " + (p.get("outside") or "-") + ". Every verdict is z3's over all values in the bound; counterexamples are replayed on a native build. Assumptions: see evidence file and DESIGN.md.") for pid, p in spec.PROPERTIES.items()]
m = dict(version=1, setup_cmd="make -C engine", checks=checks, not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in spec.NOT_APPLICABLE],
    notes="No hooks in /repo: harnesses include /repo's headers and sources directly. Repairs of /repo are the commits starting with 'fix:', listed in known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
