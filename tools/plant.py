"""plant(id, prop, [(file, old, new)...], needs, breaks, demo, flags): writes seeded/<id>/."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Run in the root of the repository; exit 0 when the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'find "$tmp" -delete' EXIT
g++ -std=c++11 -w FLAGS -I include "$here/demo.cpp" src/*.cpp -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
'''
def plant(id, prop, edits, needs, breaks, demo, flags="-O1 -pthread"):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.check_call("git clone -q /repo %s/r" % t, shell=True)
    for f, old, new in edits:
        p = os.path.join(t, "r", f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
    # removed lines must be the original repository's
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for f in {e[0] for e in edits}:
        blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], text=True).splitlines()
        import re
        ln = 0; orig = 0; mine = 0; cur = False
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:] == f
            if not cur: continue
            m = re.match(r"@@ -(\d+)", l)
            if m: ln = int(m.group(1)); continue
            if l.startswith("-") and not l.startswith("---"):
                if blame[ln - 1].startswith("^"): orig += 1
                else: mine += 1
                ln += 1
            elif l.startswith(" "): ln += 1
        if mine or not orig: print("NOTE", id, f, "original lines changed:", orig, "own lines changed:", mine)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("FLAGS", flags))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(t)
