#!/usr/bin/env python3
"""replay.py ID UNIT ENTRY INPUT - build the harness natively against /repo and run one counterexample."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, spec
pid, unit, entry, inp = sys.argv[1:5]
u = [x for x in spec.PROPERTIES[pid]["units"] if x["name"] == unit][0]
wd = tempfile.mkdtemp(prefix="bbr_")
try:
    worst = 0
    for san in (True, False):
        rc, o, e = check.run_native(check.build_native(u, "quick", wd, san), entry, os.path.abspath(inp), fill=os.environ.get("SV_FILL"))
        print("== %s: exit %d\n%s%s" % ("clang ASan" if san else "g++", rc, o[-2000:], e[-3000:])); worst = worst or rc
finally: shutil.rmtree(wd, ignore_errors=True)
sys.exit(worst & 255)
