#!/usr/bin/env python3
"""mkseed.py SPEC.py...  SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++), optional FLAGS.
Creates /verif/seeded/ID/."""
import json, os, subprocess, sys, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    ns = {"FLAGS": "-O1"}
    exec(open(spec).read(), ns)
    d = "%s/seeded/%s" % (H, ns["ID"])
    shutil.rmtree(d, ignore_errors=True)
    t = "/tmp/mkseed-tmp"
    shutil.rmtree(t, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", t], check=True)
    for f, old, new in ns["EDITS"]:
        p = "%s/%s" % (t, f)
        s = open(p).read()
        assert s.count(old) == 1, (ns["ID"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE, check=True).stdout
    os.makedirs(d)
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cc", "w").write(ns["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaviour as specified; run with cwd = repository root after the build
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 %s -w -D_ZKEXPORT=1 -D_ZK_WITH_MMAP=1 -I"$PWD/include" -I"$PWD/src" "$here/demo.cc" "$PWD/_build/libzenkit.a" "$PWD/_build/_deps/libsquish-build/libsquish.a" -lsquish -lpthread -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo "$t"
''' % ns["FLAGS"])
    shutil.rmtree(t, ignore_errors=True)
    print("wrote", d)
