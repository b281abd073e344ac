#!/usr/bin/env python3
"""Builds /repo's working tree together with one property and runs it.

  check.py <id> [quick|thorough]        decide the property
  check.py <id> --replay FILE           run a saved failing input
  extra options after the tier are passed to the engine (--cases N, --seed N)
"""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HYPERCV_REPO", "/repo")
MODS = ["core/src/c_src", "core/src/cxx_src", "process/src/c_src", "process/src/cxx_src",
        "highgui/src", "algorithm/src"]
INCS = ["core/include", "process/include", "algorithm/include", "highgui/include", "satellite/include"]
DEFS = ["-D_cplusplus", "-Dgdal_switch=1", "-DX11_switch=1", "-DUSE_SDL=1"]
SYS = ["-I/usr/include/gdal", "-I/usr/include/SDL"]
OPT = ["-g", "-O1", "-fno-omit-frame-pointer", "-fwrapv", "-fno-strict-aliasing", "-w"]
SHOW = ["-Wl,--wrap=SDL_" + f for f in ("PollEvent", "WaitEvent", "Delay", "UpdateRect", "UpdateRects", "Flip")]
LIBS = ["-Wl,--as-needed", "-lgdal", "-lX11", "-lSDL_image", "-lSDL", "-lpthread", "-lm"]
ASAN = ("detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:"
        "handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1:"
        "alloc_dealloc_mismatch=0")
LIVES = ("C05", "C06", "C28", "C31", "C32")
TSAN = "halt_on_error=1:ignore_noninstrumented_modules=1:report_signal_unsafe=0:allocator_may_return_null=1"
THREADS = {"C33"}                # run under ThreadSanitizer instead of AddressSanitizer


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout[-4000:])
        raise SystemExit(2)


def build(prop, out, fuzz=False):
    cc, cxx = ("clang", "clang++") if fuzz else ("gcc", "g++")
    kind = "-fsanitize=thread" if prop in THREADS else "-fsanitize=address"
    san = [kind] + (["-fsanitize=fuzzer-no-link"] if fuzz else [])
    inc = ["-I%s/modules/%s" % (REPO, i) for i in INCS]
    jobs, objs = [], []
    for m in MODS + (["satellite/src"] if prop in ("C31", "C32", "C33", "C35") else []):
        for src in sorted(glob.glob("%s/modules/%s/*.c" % (REPO, m)) + glob.glob("%s/modules/%s/*.cpp" % (REPO, m))):
            o = "%s/lib_%d.o" % (out, len(objs))
            objs.append(o)
            c = [cc] if src.endswith(".c") else [cxx, "-std=gnu++11"]
            if fuzz:                     # clang rejects what gcc 13 accepts
                c += ["-Wno-implicit-function-declaration", "-Wno-int-conversion", "-Wno-implicit-int",
                      "-Wno-incompatible-function-pointer-types", "-Wno-c++11-narrowing"]
            jobs.append(c + OPT + san + DEFS + ["-I" + os.path.dirname(src)] + inc + SYS + ["-c", src, "-o", o])
    eng = ["-I%s/engine" % HERE] + (["-DPBT_FUZZ"] if fuzz else [])
    harness = OPT + san + ["-std=gnu++17"] + DEFS + eng + inc + SYS
    jobs.insert(0, [cxx] + harness + ["-c", "%s/props/%s.cpp" % (HERE, prop), "-o", out + "/prop.o"])
    jobs.insert(1, [cxx] + harness + ["-c", "%s/engine/pbt.cpp" % HERE, "-o", out + "/pbt.o"])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    sh(["ar", "rcs", out + "/libhypercv.a"] + objs)
    sh([cxx] + (["-fsanitize=fuzzer,address"] if fuzz else [kind]) +
       [out + "/prop.o", out + "/pbt.o", out + "/libhypercv.a", "-Wl,-u,cal_edge_signal_energy", "-Wl,-u,set_wavelet_base", "-Wl,--wrap=exit", "-Wl,--wrap=time",
        "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"] + SHOW + LIBS +
       ["-o", out + "/run"])


def coverage_guided(prop, out, seed, env, seconds_runs):
    """libFuzzer over the same property: returns (note, replay file or None)."""
    d = out + "/fz"
    os.makedirs(d + "/corpus"), os.makedirs(d + "/bin"), os.makedirs(d + "/cwd")
    build(prop, d + "/bin", fuzz=True)
    env = dict(env, PBT_SCRATCH=d + "/cwd", PBT_FAILURE=d + "/failure")
    procs = []
    for j in range(8):
        c = d + "/corpus/%d" % j
        os.makedirs(c), os.makedirs(d + "/cwd/%d" % j)
        e = dict(env, PBT_SCRATCH=d + "/cwd/%d" % j, PBT_FAILURE=d + "/failure%d" % j)
        procs.append(subprocess.Popen(
            [d + "/bin/run", "-seed=%d" % (seed * 8 + j + 1), "-max_total_time=%d" % seconds_runs, "-max_len=4096",
             "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=%s/art%d-" % (d, j), c],
            env=e, stdout=subprocess.DEVNULL, stderr=open(d + "/log%d" % j, "w")))
    execs, failing = 0, []
    for j, p in enumerate(procs):
        rc = p.wait()
        log = open(d + "/log%d" % j, errors="replace").read()
        for line in log.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split()[-1])
        if rc:
            failing += [a for a in glob.glob(d + "/art%d-*" % j)
                        if os.path.basename(a).split("-")[1] in ("crash", "timeout")]
    return "%d executions in 8 libFuzzer campaigns, %d failing inputs" % (execs, len(failing)), failing, d


def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    out = tempfile.mkdtemp(prefix="hypercv-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    # freed memory is used again at once, as without a sanitizer, except where lifetimes are the subject
    asan = ASAN + (":quarantine_size_mb=16" if prop in LIVES else ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0")
    env = dict(os.environ, ASAN_OPTIONS=asan, TSAN_OPTIONS=TSAN, GDAL_SKIP="", HOME=out)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            build(prop, out)
            return subprocess.call([out + "/run", "--replay", sys.argv[3], "--scratch", out], env=env)
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        build(prop, out)
        os.makedirs(HERE + "/evidence", exist_ok=True)
        rep = HERE + "/evidence/replay"
        cmd = [out + "/run", "--tier", tier, "--seed", str(seed), "--scratch", out, "--t0", "%.3f" % t0,
               "--evidence", "%s/evidence/%s.json" % (HERE, prop), "--replaydir", rep] + sys.argv[3:]
        if prop in THREADS and subprocess.call(["setarch", "-R", "true"], stderr=subprocess.DEVNULL) == 0:
            cmd = ["setarch", "-R"] + cmd            # ThreadSanitizer needs its addresses free
        if os.environ.get("PBT_NO_EVIDENCE"):
            i = cmd.index("--evidence"); del cmd[i:i + 2]
        rc = subprocess.call(cmd, env=env)
        if rc not in (0, 1):
            return 2
        if rc == 0 and tier == "thorough" and prop not in THREADS:
            note, failing, d = coverage_guided(prop, out, seed, env, 90)
            print(prop + ": " + note)
            ev = "%s/evidence/%s.json" % (HERE, prop)
            j = json.load(open(ev))
            j["coverage"]["coverage_guided"] = note
            j["wall_s"] = round(time.time() - t0, 2)
            for a in failing:
                # back to a choice sequence; it must fail three times in the plain engine
                f = d + "/choices"
                e = dict(env, PBT_SCRATCH=d + "/cwd", PBT_FAILURE=f)
                subprocess.call([d + "/bin/run", "-timeout=60", a], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(f) and all(subprocess.call([out + "/run", "--replay", f, "--scratch", out], env=env,
                                                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 1 for _ in range(3)):
                    os.makedirs(rep, exist_ok=True)
                    dst = "%s/%s-fuzz-%d.replay" % (rep, prop, seed)
                    shutil.copy(f, dst)
                    j["violations"] = 1
                    print("VIOLATION property=%s replay=%s" % (prop, dst))
                    rc = 1
                    break
            json.dump(j, open(ev, "w"), indent=1)
        return rc
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
