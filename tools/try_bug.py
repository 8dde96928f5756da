#!/usr/bin/env python3
"""try_bug.py ID... [--checks C01,C02|all|own] -- development aid: applies
seeded/ID/patch.diff to scratch copies of /repo, builds, runs the repository's
tests, the demonstration on clean and changed copies, and the named checks
against the changed copy."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = dict(a[2:].split("=", 1) for a in sys.argv[1:] if a.startswith("--"))
checks = opt.get("checks", "own"); notest = opt.get("notest")
SEED = opt.get("dir", os.path.join(V, "seeded"))
def sh(cmd, cwd=None, timeout=600, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -99, "timeout"
def prepare(i):
    d = os.path.join(SEED, i)
    t = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    repo = os.path.join(t, "repo"); os.makedirs(repo)
    sh("git -C /repo archive HEAD | tar x -C " + repo)
    msgs = []
    if not notest:
        rc, o = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo, timeout=300)
        if rc: msgs.append("DEMO FAILS ON CLEAN rc=%d: %s" % (rc, o[-500:]))
    rc, o = sh(["git", "apply", "--unsafe-paths", "--directory=" + repo, os.path.join(d, "patch.diff")], cwd="/")
    if rc:
        rc, o = sh("patch -p1 < " + os.path.join(d, "patch.diff"), cwd=repo)
    if rc: msgs.append("PATCH: " + o); return t, repo, msgs
    if not notest:
        rc, o = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo, timeout=300)
        if rc == 0: msgs.append("DEMO PASSES ON BUG")
        else: msgs.append("demo: " + o.strip().splitlines()[-1][:200] if o.strip() else "demo rc %d" % rc)
        b = os.path.join(t, "b")
        rc, o = sh("cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_CXX_COMPILE_OBJECT='<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -Wno-error -o <OBJECT> -c <SOURCE>' && ninja -C %s -j4" % (repo, b, b))
        if rc: msgs.append("BUILD FAILED: " + o[-800:])
        else:
            sh("gcc -O1 -shared -fPIC -o %s/fixtime.so /opt/vp/fixtime.c" % b)
            rc, o = sh("LD_PRELOAD=%s/fixtime.so ctest --test-dir %s -j3 --timeout 300" % (b, b))
            if rc: msgs.append("TESTS FAIL: " + o[-600:])
    return t, repo, msgs
def clean(t):
    assert t.startswith("/tmp/bug-"); shutil.rmtree(t, ignore_errors=True)
if not args or args == ["all"]: args = sorted(os.listdir(SEED))
with cf.ThreadPoolExecutor(4) as ex:
    prepared = dict(zip(args, ex.map(prepare, args)))
for i in args:
    t, repo, msgs = prepared[i]
    meta = json.load(open(os.path.join(SEED, i, "meta.json")))
    res = []
    cs = [] if checks == "none" else [meta["property"]] if checks == "own" else ["C%02d" % k for k in range(1, 27)] if checks == "all" else checks.split(",")
    for c in cs:
        rc, o = sh(["python3", os.path.join(V, "bin", "check.py"), c, opt.get("tier", "quick")], env=dict(os.environ, BN_REPO=repo), timeout=900)
        res.append("%s:%s" % (c, {0: "quiet", 1: "CAUGHT"}.get(rc, "rc%d" % rc)))
        if opt.get("v"): res.append("\n    " + "\n    ".join(l[:300] for l in o.splitlines()[-2:]))
    print(i, meta["property"], "|", " ".join(res), "|", " ; ".join(msgs), flush=True)
    clean(t)
