#!/usr/bin/env python3
"""replay.py FILE: show a recorded violation, judge the recorded history again
with the specification, and run the job that found it once more."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nnvlib import *

d = json.load(open(sys.argv[1]))
print("property %s: %s" % (d["property"], d["what"]))
h = d["detail"].get("history")
if h is None: print(json.dumps(d["detail"], indent=1))
else:
    for l in h: print("  " + json.dumps(l)[:400])
    print("expected: " + str(d["detail"].get("expected"))[:2000])
    mod = d["what"].split()[-1]
    with tempfile.TemporaryDirectory() as w:
        t = os.path.join(w, "t.tr")
        with open(t, "w") as f:
            for l in h: f.write(json.dumps(l, separators=(",", ":")) + "\n")
        v = validate(mod, t, w)
        print("%s: %s" % (mod, "rejected again" if v["rejected"] else "accepted"))
print("rerun: " + d["rerun"])
if "--run" in sys.argv: sys.exit(subprocess.run(d["rerun"], shell=True, cwd=V).returncode)
