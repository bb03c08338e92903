#!/usr/bin/env python3
"""plant.py ID...: verify the planted bugs seeded/ID: applies, builds, passes the stable tests, its demo separates, and which checks catch it.
   --check P,Q   run these checks instead of the property of meta.json; --nocheck; --quick: no unit tests
   Uses /repo's working tree, which must be clean, and restores it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks, nocheck, quick = None, False, False
ids = []
while args:
    a = args.pop(0)
    if a == "--check":
        checks = args.pop(0).split(",")
    elif a == "--nocheck":
        nocheck = True
    elif a == "--quick":
        quick = True
    else:
        ids.append(a)
if not ids:
    ids = sorted(os.listdir(os.path.join(V, "seeded")))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
assert sh("bash /opt/vp/build.sh").returncode == 0
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    row = [i, prop]
    r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    row.append("clean-demo=%d" % r.returncode)
    if r.returncode:
        print(r.stdout[-1500:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout)
        continue
    try:
        r = sh("bash /opt/vp/build.sh")
        row.append("build=%d" % r.returncode)
        if r.returncode:
            print(r.stdout[-2000:])
        if not quick:
            r = sh("bash /opt/vp/test.sh /tmp/plant.json")
            row.append(r.stdout.strip().splitlines()[-1])
        try:
            r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
            row.append("bug-demo=%d" % r.returncode)
        except subprocess.TimeoutExpired:
            row.append("bug-demo=timeout")
        if not nocheck:
            for p in checks or [prop]:
                r = sh("./check.py %s" % p, cwd=V, timeout=1800)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                row.append("%s rc=%d %s" % (p, r.returncode, "CAUGHT" if v and r.returncode == 1 else "MISSED"))
                if v:
                    row.append([l for l in r.stdout.splitlines() if l.startswith("  ")][0][:160])
                elif r.returncode:
                    print(r.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    print(" | ".join(row), flush=True)
sh("bash /opt/vp/build.sh")
