#!/usr/bin/env python3
"""Run every check against rewrites of /repo that keep its behaviour: quietrun.py [name...]. Applies
each /verif/quiet/<name>.diff to /repo, runs the checks, which have to stay quiet, and undoes it."""
import json, os, subprocess, sys, time
os.chdir("/verif")
only = [a for a in sys.argv[1:] if a[0] == "P" and a[1:].isdigit()]
names = [a for a in sys.argv[1:] if a not in only] or sorted(f[:-5] for f in os.listdir("quiet") if f.endswith(".diff"))
props = only or [c["property"] for c in json.load(open("MANIFEST.json"))["checks"]]
assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == ""
bad = 0
for n in names:
    subprocess.run(["git", "-C", "/repo", "apply", f"/verif/quiet/{n}.diff"], check=True)
    try:
        for p in props:
            t = time.time()
            r = subprocess.run(["./check.sh", p], capture_output=True, text=True)
            if r.returncode:
                bad += 1; print(f"{n} {p} rc {r.returncode}", r.stdout[-800:], r.stderr[-300:], flush=True)
            else:
                print(f"{n} {p} quiet ({time.time() - t:.0f} s)", flush=True)
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
print("alarms:", bad); sys.exit(bad > 0)
