#!/usr/bin/env python3
"""check.py ID [quick|thorough] -- builds the explorer of property ID from
/repo's current working tree and runs it.  Exit 0: held; exit 1 with a
VIOLATION line: broken; 2: the check could not run."""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BN_REPO", "/repo")
H = os.path.join(VERIF, "harness")
STD = ["-std=gnu++17", "-w", "-pthread"]
APIS = ["api", "cfg1", "cfg2", "cfg3", "cfg4", "cfg5"]
ASAN = ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow",
        "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"]

# property -> list of builds: (name, main sources, flags, compiler)
def simple(main, flags=("-O2",), cxx="g++", extra=()):
    return [dict(name="main", cxx=cxx, flags=list(flags), harness=APIS + ["run", main] + list(extra), lib=True)]

def variant(name, cxx, *flags):
    return dict(name="v_" + name, cxx=cxx, flags=list(flags), harness=APIS + ["run", "c18"], lib=True)

PATTERN = "-ftrivial-auto-var-init=pattern"
VARIANTS = [
    variant("gcc_O0_debug_cxx11", "g++", "-O0", "-DBN_DEBUG", "-std=c++11"),
    variant("gcc_O3_native_deque", "g++", "-O3", "-march=native", "-DUSE_DEQUE"),
    variant("gcc_Os_ndebug_cxx20_uchar", "g++", "-Os", "-DNDEBUG", "-std=gnu++20", "-funsigned-char"),
    variant("gcc_O1_pattern", "g++", "-O1", PATTERN),
    variant("clang_O2_cxx11", "clang++", "-O2", "-std=c++11"),
    variant("clang_O3_native_ndebug_debug", "clang++", "-O3", "-march=native", "-DNDEBUG", "-DBN_DEBUG"),
    variant("clang_O0_debug_deque_pattern", "clang++", "-O0", "-DBN_DEBUG", "-DUSE_DEQUE", PATTERN),
]
MORE_VARIANTS = [
    variant("gcc_O2_cxx11", "g++", "-O2", "-std=c++11"),
    variant("gcc_Os_debug", "g++", "-Os", "-DBN_DEBUG"),
    variant("gcc_O3_unsigned_char", "g++", "-O3", "-funsigned-char", "-fno-strict-aliasing"),
    variant("gcc_O0_deque", "g++", "-O0", "-DUSE_DEQUE"),
    variant("gcc_O2_ndebug_deque_debug", "g++", "-O2", "-DNDEBUG", "-DBN_DEBUG", "-DUSE_DEQUE"),
    variant("clang_O0", "clang++", "-O0"),
    variant("clang_O3_debug", "clang++", "-O3", "-DBN_DEBUG"),
    variant("clang_Os_deque", "clang++", "-Os", "-DUSE_DEQUE"),
    variant("clang_O1_pattern", "clang++", "-O1", PATTERN),
    variant("gcc_O1_checked_containers", "g++", "-O1", "-D_GLIBCXX_DEBUG"),
    variant("gcc_O2_x87_cxx23", "g++", "-O2", "-mfpmath=387", "-std=gnu++23"),
    variant("gcc_O2_hardened", "g++", "-O2", "-D_FORTIFY_SOURCE=2", "-fstack-protector-strong", "-ftrapv", "-fPIE"),
    variant("clang_O2_uchar_cxx20", "clang++", "-O2", "-std=gnu++20", "-funsigned-char", "-fwrapv"),
]

CHECKS = {
    "C01": simple("c01"), "C02": simple("c02"), "C03": simple("c03", extra=["cfg6"]), "C04": simple("c04", extra=["cfg6"]),
    **{"C%02d" % i: simple("c%02d" % i) for i in range(5, 16)},
    "C16": simple("c16", ASAN) + [dict(name="v_memcheck", cxx="g++", flags=["-O0", "-g1"], harness=APIS + ["run", "c16"], lib=True)],
    "C17": [dict(name="main", cxx="g++", flags=["-O1", "-g1"], libflags=["-fsanitize=thread", "-fno-builtin"], hflags=["-fsanitize=thread", "-fno-builtin"],
                 plain=("run", "c17", "sched"), plainflags=["-O2"], harness=APIS + ["run", "c17", "sched"], lib=True,
                 ldflags=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-ldl"])],
    "C18": simple("c18") + VARIANTS,
    "C19": simple("c19"), "C20": simple("c20"), "C21": simple("c21"), "C22": simple("c22"),
    "C24": simple("c24"), "C26": simple("c26"), "C25": simple("c25", ("-O2", "-DBN_DEBUG")),
    "C23": [dict(name="main", cxx="g++", flags=ASAN, harness=["life_before"] + APIS + ["run", "c23"], after=["life_after"], lib=True)],
}

def lib_sources():
    d = os.path.join(REPO, "src")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))

def compile_all(builds, out):
    jobs = []
    for b in builds:
        bd = os.path.join(out, b["name"]); os.makedirs(bd, exist_ok=True)
        b["objs"] = []
        srcs = [os.path.join(H, s + ".cpp") for s in b["harness"]] + (lib_sources() if b["lib"] else []) + [os.path.join(H, s + ".cpp") for s in b.get("after", ())]
        for s in srcs:
            o = os.path.join(bd, ("lib_" if s.startswith(REPO + "/") else "h_") + os.path.basename(s)[:-4] + ".o")
            b["objs"].append(o)
            fl = list(b["flags"])
            if s.startswith(REPO + "/"): fl += b.get("libflags", [])
            else: fl += b.get("hflags", [])
            nofl = b.get("plain", ())
            if os.path.basename(s)[:-4] in nofl and not s.startswith(REPO + "/"): fl = list(b.get("plainflags", ["-O2"]))
            jobs.append([b["cxx"]] + STD + fl + ["-I" + os.path.join(REPO, "include"), "-I" + H, "-c", s, "-o", o])
    def run(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, cmd, r.stdout
    with cf.ThreadPoolExecutor(8) as ex:
        for rc, cmd, log in ex.map(run, jobs):
            if rc:
                print("BUILD FAILED:", " ".join(cmd)); print(log[-4000:]); sys.exit(2)
    links = []
    for b in builds:
        exe = os.path.join(out, b["name"], "explorer")
        b["exe"] = exe
        links.append([b["cxx"]] + STD + b["flags"] + b["objs"] + b.get("ldflags", []) + ["-o", exe])
    with cf.ThreadPoolExecutor(8) as ex:
        for rc, cmd, log in ex.map(run, links):
            if rc:
                print("LINK FAILED:", " ".join(cmd)); print(log[-4000:]); sys.exit(2)

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print(__doc__); print("properties:", " ".join(CHECKS)); return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    builds = list(CHECKS[prop])
    if prop == "C18" and tier == "thorough": builds += MORE_VARIANTS
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    out = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "build"))
    try:
        t0 = time.time()
        compile_all(builds, out)
        if os.environ.get("VERIF_TIMING"): print("build %.1f s" % (time.time() - t0))
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:quarantine_size_mb=16:detect_stack_use_after_return=1:hard_rss_limit_mb=3500:malloc_context_size=8"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        env.setdefault("VERIF_SEED", "1")
        cmd = [builds[0]["exe"], "--prop", prop, "--tier", tier,
               "--evidence", os.path.join(VERIF, "evidence", prop + ".json"),
               "--replay", os.path.join(VERIF, "out", prop + "-replay.cpp")]
        for b in builds[1:]: cmd += ["--" + b["name"], b["exe"]]
        cmd += sys.argv[3:]
        rc = subprocess.run(cmd, env=env, cwd=VERIF).returncode
        return rc if rc in (0, 1) else 2
    finally:
        shutil.rmtree(out, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
