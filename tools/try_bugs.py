#!/usr/bin/env python3
"""try_bugs.py [-a] [ID...]: apply each planted bug to /repo, run the quick check of its property (-a: all checks), undo."""
import json, os, subprocess, sys, time
args = sys.argv[1:]
allc = "-a" in args; args = [a for a in args if a != "-a"]
ids = args or sorted(os.listdir("/verif/seeded"))
built = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]] if allc else []
for i in ids:
    d = "/verif/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode: print(i, "DOES NOT APPLY"); continue
    try:
        for p in (built if allc else [m["property"]]):
            t = time.time()
            r = subprocess.run(["python3", "/verif/check.py", p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            det = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][-1:] 
            if not allc or r.returncode:
                print(i, p, "CAUGHT" if r.returncode == 1 and line else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), (line or [""])[0][:100], (det or [""])[0][:160], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
