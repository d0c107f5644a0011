#!/usr/bin/env python3
"""Applies planted bugs to /repo one at a time, runs the property's check, undoes them."""
import json, os, subprocess, sys, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = os.environ.get("SEEDS", os.path.join(here, "seeded"))
ids = sys.argv[1:] or sorted(os.listdir(seeds))
for i in ids:
    d = os.path.join(seeds, i)
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")]).returncode:
        print(i, p, "does not apply", flush=True)
        continue
    t = time.time()
    try:
        r = subprocess.run([sys.executable, "run/check.py", p, "quick"], cwd=here, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if "VIOLATION property=" in l or ": inputs" in l or l.startswith(("TROUBLE", "INCOMPLETE", "BROKEN"))]
    print(i, p, "exit", r.returncode, "%.0f s" % (time.time() - t), "CAUGHT" if r.returncode == 1 else "MISSED", (v or [""])[0][:300], flush=True)
