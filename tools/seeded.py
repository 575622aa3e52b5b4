#!/usr/bin/env python3
"""seeded.py [id...]: applies each planted bug to /repo, runs the check of its property, undoes it; prints and stores the results."""
import sys, os, json, subprocess, time
V = "/verif"; S = V + "/seeded"
res = {}
rf = V + "/tools/seeded_results.json"
if os.path.exists(rf): res = json.load(open(rf))
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    subprocess.run(["git", "-C", "/repo", "apply", "%s/%s/patch.diff" % (S, i)], check=True)
    t = time.time()
    try:
        r = subprocess.run([V + "/run.sh", m["property"], "quick"], capture_output=True, text=True, cwd=V)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    hit = r.returncode == 1 and ("VIOLATION property=%s " % m["property"]) in r.stdout
    why = [l.strip() for l in r.stdout.splitlines() if ": assert [" in l or ": panic [" in l or ": race [" in l or ": hang [" in l or ": deadlock" in l or "sampled" in l or "native run" in l][:1]
    res[i] = {"property": m["property"], "caught": hit, "by": (why[0][:150] if why else "")}
    print(i, m["property"], "CAUGHT" if hit else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), why[:1], flush=True)
    if not hit: print(r.stdout[-800:])
    json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
