#!/usr/bin/env python3
"""seedbug.py ID [check...]: validates seeded/ID in a scratch copy of /repo (applies, changes
original lines, builds, tests pass, demo fails with it and passes without) and runs the named checks
(default: the property of meta.json) against the copy.  Development aid, no check uses it."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid, checks = sys.argv[1], sys.argv[2:]
d = os.path.join(ROOT, "seeded", bid)
meta = json.load(open(d + "/meta.json"))
W = "/tmp/sb/" + bid
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W, symlinks=True)
shutil.rmtree(W + "/_build", ignore_errors=True)
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = sh("git -C /repo log --format=%H --reverse").stdout.split()
first = next(h for h in base if not sh("git -C /repo log -1 --format=%%s %s" % h).stdout.startswith("fix:") and not sh("git -C /repo log --format=%%s %s..HEAD" % h).stdout.replace("fix:", "", 1) == "" or True)
orig = [h for h in base if not sh("git -C /repo log -1 --format=%%s %s" % h).stdout.startswith("fix:")][-1]
diff = open(d + "/patch.diff").read()
f, hit = None, 0
for l in diff.splitlines():
    if l.startswith("--- a/"):
        f = l[6:]
        o = sh("git -C /repo show %s:%s" % (orig, f)).stdout.splitlines()
    elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
        if l[1:] in o:
            hit += 1
        else:
            print("  NOT AN ORIGINAL LINE:", l)
def build():
    r = sh("cmake -S src -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DINSTALL_GTEST=OFF && ninja -C _build", cwd=W)
    if r.returncode:
        print(r.stdout[-2000:]); sys.exit("BUILD FAILED")
build()
r = sh("bash %s/demo.sh" % d, cwd=W)
ok0 = r.returncode == 0
if not ok0: print("demo on clean:", r.stdout[-1500:])
r = sh("git apply %s/patch.diff" % d, cwd=W)
if r.returncode: sys.exit("APPLY: " + r.stdout)
build()
t = sh("ctest --test-dir _build --timeout 300", cwd=W)
r = sh("bash %s/demo.sh" % d, cwd=W)
print("%s: original lines %d, demo clean %s, patched rc %d, tests %s  [%s]" % (bid, hit, "ok" if ok0 else "FAILS", r.returncode, "pass" if t.returncode == 0 else "FAIL", r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else ""))
if r.returncode == 0: print("  DEMO DOES NOT FAIL")
for c in checks or [meta["property"]]:
    if c == "none": continue
    e = dict(os.environ, VERIF_REPO=W, VERIF_EVIDENCE_DIR="/tmp/ev")
    os.makedirs("/tmp/ev", exist_ok=True)
    r = sh("timeout 900 ./check %s --tier quick --seed 1" % c, cwd=ROOT, env=e)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith(c + ":")]
    print("  %s rc=%d %s" % (c, r.returncode, (v or r.stdout.splitlines()[-1:])[0][:260]))
shutil.rmtree(W, ignore_errors=True)
