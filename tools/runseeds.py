#!/usr/bin/env python3
"""runseeds.py [ID..]: applies each planted bug to /repo, runs the check of its property, undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
for i in ids:
    d = f"{V}/seeded/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    try:
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        r = subprocess.run(["python3", V + "/check.py", p], capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-32s %s rc=%d %s %.0f s  %s" % (i, p, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", time.time() - t, "" if v else r.stdout[-600:]), flush=True)
