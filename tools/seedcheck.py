#!/usr/bin/env python3
"""seedcheck.py [--nocheck] ID...   confirms planted bugs in a scratch copy of /repo and runs their property's check there."""
import json, os, subprocess, sys, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    r = sh("sed 's#/repo#%s#g' /opt/vp/build.sh | bash" % WT)
    return r.returncode == 0, r.stdout[-1500:]
def tests():
    rep = WT + "/_rep"
    shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    sh("python3 /opt/vp/run_doctest.py %s/_build/test-zenkit %s" % (WT, rep), cwd=WT + "/tests")
    passed = {l[5:].strip() for l in open(rep + "/results.txt") if l.startswith("PASS ")}
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return stable - passed
def reset():
    sh("mkdir -p %s && rsync -a --delete --exclude _build --exclude _build.log --exclude _rep /repo/ %s/" % (WT, WT))
    sh("git -C %s checkout -q -- . " % WT)
nocheck = "--nocheck" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(H + "/seeded"))
env = dict(os.environ, VP_REPO=WT, VP_BUILD="/tmp/seedbuild", VP_EVID="/tmp/seedevid")
summary = []
for i in ids:
    d = "%s/seeded/%s" % (H, i)
    meta = json.load(open(d + "/meta.json"))
    reset()
    if "--base" in sys.argv or not os.path.exists(WT + "/_build/libzenkit.a") or True:
        ok, out = build()
        r0 = sh("bash %s/demo.sh" % d, cwd=WT, timeout=300)
    r = sh("git -C %s apply %s/patch.diff" % (WT, d))
    if r.returncode:
        summary.append((i, "patch does not apply: " + r.stdout)); continue
    ok, out = build()
    if not ok:
        summary.append((i, "does not build " + out)); continue
    miss = tests()
    r1 = sh("bash %s/demo.sh" % d, cwd=WT, timeout=300)
    line = "base-demo=%d bug-demo=%d tests-lost=%s" % (r0.returncode, r1.returncode, sorted(miss)[:3])
    if r0.returncode: line += "\n" + r0.stdout[-800:]
    if not nocheck:
        c = sh("python3 %s/run.py %s quick" % (H, meta["property"]), env=env)
        line += " check=%d (%s) %s" % (c.returncode, meta["property"], [l[:110] for l in c.stdout.splitlines() if l[:1] not in " V"][:4])
    summary.append((i, line))
    print(i, line, flush=True)
reset()
print("\n".join("%s: %s" % x for x in summary))
