#!/usr/bin/env python3
"""sweep.py [ID...]: runs the check of each planted bug's property against /repo with the bug applied (and undoes it).
With --all every check is run, which tells which others see the bug."""
import json, os, re, subprocess, sys, time
V = "/verif"
allc = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
for i in ids:
    d = V + "/seeded/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        seen = []
        for c in (props if allc else [p]):
            t = time.time()
            r = subprocess.run(["python3", "check.py", c, "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            hit = r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout
            if hit or r.returncode:
                seen.append("%s%s" % (c, "" if hit else "(rc %d)" % r.returncode))
            if c == p:
                own = "%s rc=%d %.1fs" % ("CAUGHT" if hit else "MISSED", r.returncode, time.time() - t)
        print(i, p, own, " ".join(seen) if allc else "", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
