#!/usr/bin/env python3
"""Builds the harness of one property against /repo's working tree and runs it.

  run.py C01            check (VERIF_TIER=quick|thorough, VERIF_SEED)
  run.py C01 --replay F replay one failing case
  run.py --setup        check that the tools are there
Anything after the property id is passed on to the harness.
"""
import glob, hashlib, os, shutil, subprocess, sys, sysconfig, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
ASAN = ["-fsanitize=address,undefined,float-cast-overflow",
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
        "-D_GLIBCXX_ASSERTIONS", "-DVERIF_SAN"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer", "-DVERIF_SAN"]

# per property: compiler flags, extra artefacts, sub-checks worth fuzzing
SPEC = {
    "C10": dict(flags=["-O1", "-g"] + ASAN, fuzz=["domain", "hostile"]),
    "C17": dict(cli=True),
    "C18": dict(py=True),
    "C22": dict(flags=["-O1", "-g"] + TSAN),
    "C11": dict(flags=["-O1", "-g"] + ASAN),
    "C12": dict(flags=["-O1", "-g"] + ASAN),
    "C13": dict(flags=["-O1", "-g"] + ASAN),
    "C14": dict(flags=["-O1", "-g"] + ASAN),
}
MOCK = ["-I" + os.path.join(HERE, "mock")]
REAL = ["-DVERIF_REAL_SYCL", "-isystem", "/opt/sycl/include",
        "-isystem", "/opt/sycl/include/sycl"]
REAL_LINK = ["-L/opt/sycl/lib", "-Wl,-rpath,/opt/sycl/lib", "-lsycl"]
INC = ["-I" + REPO + "/include", "-I" + REPO + "/src"]
BASE = ["-std=c++17", "-pthread", "-w"]


def digest(*extra):
    h = hashlib.sha256()
    pats = [REPO + "/include/**/*", REPO + "/src/**/*", HERE + "/lib/*",
            HERE + "/mock/**/*", HERE + "/props/*"]
    for pat in pats:
        for f in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode())
                h.update(open(f, "rb").read())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()


def compile_(out, src, flags, link=(), cxx="g++", allow_real=True):
    """Builds out unless it is there already for the same sources."""
    cmds = [[cxx] + BASE + flags + MOCK + INC + [src, "-o", out] + list(link)]
    if allow_real:
        cmds.append([cxx] + BASE + flags + REAL + INC + [src, "-o", out] +
                    REAL_LINK + list(link))
    # should an internal function no test of the repository uses be gone: what
    # can be checked without it
    cmds += [c[:1] + ["-DVERIF_MINIMAL"] + c[1:] for c in cmds]
    key = digest(cmds)
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) \
            and open(stamp).read() == key:
        return True
    os.makedirs(os.path.dirname(out), exist_ok=True)
    err = ""
    for c in cmds:
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
        if r.returncode == 0:
            with open(stamp, "w") as f:
                f.write(key)
            return True
        err = err or " ".join(c) + "\n" + r.stdout
    sys.stderr.write(err[-6000:])
    return False


def environment():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("abort_on_error=0:detect_leaks=0:exitcode=77:"
                         "allocator_may_return_null=0:"
                         "detect_stack_use_after_return=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:die_after_fork=0"
    e["LC_ALL"] = "C"
    e["MALLOC_ARENA_MAX"] = "4"
    for v in ("ACPP_VISIBILITY_MASK", "ONEAPI_DEVICE_SELECTOR"):
        e.pop(v, None)
    return e


def fuzz(pid, spec, env, seconds):
    """Coverage-guided search over the draws of the named sub-checks."""
    out = os.path.join(BUILD, pid, "fuzz")
    src = os.path.join(HERE, "props", pid + ".cpp")
    if not compile_(out, src, ["-O1", "-g", "-DPBT_FUZZ"] + ASAN +
                    ["-fsanitize=fuzzer"], cxx="clang++", allow_real=False):
        print("[%s] fuzz target does not build; skipped" % pid)
        return []
    found = []
    for sub in spec["fuzz"]:
        work = os.path.join(BUILD, pid, "fuzz-" + sub)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work + "/corpus")
        e = dict(env, PBT_SUB=sub)
        seed = int(env.get("VERIF_SEED", "1") or 1) or 1
        procs = []
        for w in range(8):
            log = open(work + "/log%d" % w, "w")
            procs.append(subprocess.Popen(
                [out, "-seed=%d" % (seed * 8 + w), "-max_total_time=%d" % seconds,
                 "-max_len=4096", "-len_control=50", "-timeout=120",
                 "-rss_limit_mb=3000", "-artifact_prefix=%s/crash-%d-" % (work, w),
                 "-print_final_stats=1", "-reload=1", work + "/corpus"],
                stdout=log, stderr=log, env=e, cwd=work))
        for p in procs:
            p.wait()
        execs = 0
        for w in range(8):
            for l in open(work + "/log%d" % w, errors="replace"):
                if l.startswith("stat::number_of_executed_units:"):
                    execs += int(l.split()[-1])
        crashes = [c for c in sorted(glob.glob(work + "/crash-*"))
                   if "/crash-" in c and ("-crash-" in c or "-timeout-" in c)]
        print("[%s/%s] libFuzzer: %d executions, %d corpus files, %d crashes"
              % (pid, sub, execs, len(os.listdir(work + "/corpus")),
                 len(crashes)))
        sys.stdout.flush()
        for c in crashes[:3]:
            found.append((sub, c))
    return found


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        for t in ("g++", "clang++", "python3"):
            if not shutil.which(t):
                sys.exit("missing tool: " + t)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        print("ready")
        return 0
    if not a:
        sys.exit(__doc__)
    pid, rest = a[0], a[1:]
    spec = SPEC.get(pid, {})
    src = os.path.join(HERE, "props", pid + ".cpp")
    out = os.path.join(BUILD, pid, "check")
    evid = os.path.join(HERE, "evidence", pid + ".json")
    replays = os.path.join(HERE, "replays")
    for d in (os.path.dirname(evid), replays, os.path.dirname(out)):
        os.makedirs(d, exist_ok=True)
    env = environment()
    t0 = time.time()
    jobs = []
    ok = compile_(out, src, spec.get("flags", ["-O2"]),
                  allow_real=pid != "C16")
    if ok and spec.get("cli"):
        cli = os.path.join(BUILD, pid, "clvotess")
        ok = compile_(cli, REPO + "/src/main.cpp", ["-O1"] + [
            "-D_GLIBCXX_ASSERTIONS"])
        env["VERIF_CLI"] = cli
    if ok and spec.get("py"):
        so = os.path.join(BUILD, pid, "pyvotess.so")
        inc = ["-I" + sysconfig.get_paths()["include"]]
        ok = compile_(so, REPO + "/src/pybind11/pyvotess.cpp",
                      ["-O1", "-fPIC", "-shared", "-fvisibility=hidden"] + inc)
        env["VERIF_PYDIR"] = os.path.dirname(so)
        env["VERIF_PYSERVER"] = os.path.join(HERE, "lib", "pyserver.py")
        env["PYTHONDONTWRITEBYTECODE"] = "1"
    if not ok:
        sys.stderr.write("the harness of %s does not build\n" % pid)
        return 2
    print("[%s] built in %.1f s" % (pid, time.time() - t0))
    sys.stdout.flush()
    cmd = [out, "--replays", replays] + rest
    if not rest:
        cmd += ["--evidence", evid]
    scratch = env["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif-")
    try:
        rc = subprocess.call(cmd, env=env, cwd=HERE)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc == 0 and not rest and spec.get("fuzz") \
            and env.get("VERIF_TIER") == "thorough":
        secs = int(env.get("VERIF_FUZZ_S", "600"))
        for sub, f in fuzz(pid, spec, env, secs):
            rc = subprocess.call([out, "--replays", replays, "--sub", sub,
                                  "--bytes", f], env=env, cwd=HERE)
            if rc == 1:
                return 1
        rc = 0
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
