#!/usr/bin/env python3
"""Run checks against planted bugs: seedrun.py [--all] [id...]. Applies each patch to /repo, runs the
check of its property (or all checks), and undoes it."""
import json, os, subprocess, sys, time
os.chdir("/verif")
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if a != "--all"] or sorted(os.listdir("seeded"))
assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == ""
for i in ids:
    prop = json.load(open(f"seeded/{i}/meta.json"))["property"]
    props = [c["property"] for c in json.load(open("MANIFEST.json"))["checks"]] if every else [prop]
    r = subprocess.run(["git", "-C", "/repo", "apply", f"/verif/seeded/{i}/patch.diff"], capture_output=True, text=True)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stderr); continue
    hit, odd, times = [], [], []
    try:
        for p in props:
            t = time.time()
            r = subprocess.run(["./check.sh", p], capture_output=True, text=True)
            times.append(time.time() - t)
            if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout: hit.append(p)
            elif r.returncode: odd.append(f"{p}:{r.returncode}"); print(r.stdout[-600:])
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    print(f"{i:34} {prop} {'caught' if prop in hit else 'MISSED'} by {' '.join(hit)} {'ODD ' + ' '.join(odd) if odd else ''} ({max(times):.0f} s)", flush=True)
