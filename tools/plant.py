#!/usr/bin/env python3
"""plant.py <file.py>: makes /verif/seeded/<id>/ from definitions (list B of dicts), after confirming each in a scratch copy:
builds, stable tests pass, the demonstration passes without and fails with the change."""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif"
DEMO = '''#!/bin/bash
# run in the repository; the test file beside this script is overlaid on package %(pkg)s
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$d/demo_test.go" >"$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
def stable(cwd):
    r = sh("go test -vet=off -count=1 -json ./...", cwd, timeout=280)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Action") == "pass" and d.get("Test"): ok.add((d["Package"], d["Test"]))
    return ok
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
W = tempfile.mkdtemp(prefix="plant"); R = W + "/repo"
subprocess.run(["cp", "-a", "/repo", R], check=True)
clean = stable(R)
for b in B:
    if only and b["id"] not in only: continue
    d = os.path.join(V, "seeded", b["id"])
    sh("git checkout -q -- .", R)
    bad = None
    blame = {}
    for f, old, new in b["edits"]:
        s = open(R + "/" + f).read()
        if s.count(old) != 1: bad = "edit matches %d times: %s" % (s.count(old), old); break
        open(R + "/" + f, "w").write(s.replace(old, new))
    if bad: print(b["id"], "BAD", bad); continue
    diff = sh("git diff", R).stdout
    # changed lines must be original ones
    fix = []
    for f in {e[0] for e in b["edits"]}:
        bl = sh("git blame -s HEAD -- " + f, R).stdout.splitlines()
        dd = sh("git diff -U0 -- " + f, R).stdout.splitlines()
        for l in dd:
            if l.startswith("@@"):
                m = l.split()[1][1:].split(",")
                a, n = int(m[0]), int(m[1]) if len(m) > 1 else 1
                for i in range(a, a + n):
                    if not bl[i-1].startswith("^526295c"): fix.append((f, i, bl[i-1]))
    r = sh("go build ./...", R)
    if r.returncode: print(b["id"], "BAD build", r.stderr); continue
    t = stable(R)
    if clean - t: print(b["id"], "BAD tests fail", clean - t); continue
    tmp = tempfile.mkdtemp(prefix="demo")
    open(tmp + "/demo_test.go", "w").write(b["demo"])
    open(tmp + "/demo.sh", "w").write(DEMO % {"pkg": b["pkg"]})
    r1 = sh("bash %s/demo.sh" % tmp, R)
    sh("git checkout -q -- .", R)
    r0 = sh("bash %s/demo.sh" % tmp, R)
    if r0.returncode or not r1.returncode:
        print(b["id"], "BAD demo clean=%d bug=%d" % (r0.returncode, r1.returncode), (r0.stdout + r0.stderr)[-1500:] if r0.returncode else (r1.stdout+r1.stderr)[-600:]); shutil.rmtree(tmp); continue
    if fix: print(b["id"], "WARNING lines of fix commits:", fix)
    shutil.rmtree(d, ignore_errors=True); shutil.move(tmp, d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    os.chmod(d + "/demo.sh", 0o755)
    print(b["id"], "planted", "" if "undefined" not in r1.stdout else "??")
shutil.rmtree(W)
