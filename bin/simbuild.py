#!/usr/bin/env python3
"""Build the simulator runtime and the scenario binaries, cached by content.

Every object is rebuilt when any file it was compiled from has changed (the list comes from
the compiler's dependency output, the comparison is by content hash)."""
import hashlib, os, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SVS_REPO", "/repo")
OUT = os.environ.get("SIM_OUT", os.path.join(VERIF, "build"))
RT = os.path.join(VERIF, "sim", "rt")
SCEN = os.path.join(VERIF, "sim", "scen")
DEFS = ("-DSVS_VERSION_MAJOR=0 -DSVS_VERSION_MINOR=0 -DSVS_VERSION_PATCH=4 -DSVS_HAVE_MKL=0 "
        "-DSVS_ENABLE_NUMA=0 -DSVS_INITIALIZE_LOGGER=1 -DFMT_SHARED -DSPDLOG_COMPILED_LIB "
        "-DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DSVS_CHECK_BOUNDS=1").split()
INC = ["-I" + os.path.join(REPO, "include"), "-isystem", "/opt/vp/deps/tomlplusplus/include",
       "-I" + RT]
INSTR = ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove",
         "-fno-builtin-memset", "-fno-builtin-memcmp", "-Wno-tsan", "-w"]
REDEF = []
for f in ("memcpy", "memmove", "memset", "memcmp"):
    REDEF += ["--redefine-sym", f"{f}=simrt_{f}"]
RT_SRC = ["core", "heap", "tsan_abi", "posix", "io", "main"]


def cpu_has_avx512():
    try:
        with open("/proc/cpuinfo") as f:
            for l in f:
                if l.startswith("flags"):
                    fl = set(l.split())
                    return {"avx512f", "avx512bw", "avx512vl", "avx512dq", "avx512_vnni"} <= fl
    except OSError:
        pass
    return False


# Binary name -> (scenario sources, march). "fast": vectorised kernels.
VEC = ["-march=x86-64-v4", "-mavx512vnni"] if cpu_has_avx512() else ["-march=x86-64-v3"]
SCALAR = ["-march=x86-64-v2"]


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()


_cache = {}


def sha_cached(path):
    if path not in _cache:
        try:
            _cache[path] = sha(path)
        except OSError:
            _cache[path] = "missing"
    return _cache[path]


def deps_of(dfile):
    with open(dfile) as f:
        t = f.read().replace("\\\n", " ")
    return [x for x in t.split(":", 1)[1].split() if x]


def up_to_date(obj, cmd):
    st = obj + ".stamp"
    if not (os.path.exists(obj) and os.path.exists(st)):
        return False
    with open(st) as f:
        lines = f.read().splitlines()
    if not lines or lines[0] != hashlib.sha256(" ".join(cmd).encode()).hexdigest():
        return False
    for l in lines[1:]:
        h, p = l.split(" ", 1)
        if sha_cached(p) != h:
            return False
    return True


def write_stamp(obj, cmd, deps):
    tmp = obj + ".stamp.tmp"
    with open(tmp, "w") as f:
        f.write(hashlib.sha256(" ".join(cmd).encode()).hexdigest() + "\n")
        for d in sorted(set(os.path.realpath(d) for d in deps)):
            # system headers do not change under us
            if d.startswith("/usr/"):
                continue
            f.write(sha_cached(d) + " " + d + "\n")
    os.replace(tmp, obj + ".stamp")


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


# Utilities of the library linked into one scenario; each is a program of its own.
TOOLS = ["convert_data_to_float16", "convert_legacy", "upgrade_vamana_index_parameters",
         "assemble_vamana", "compute_recall"]


def make_private(obj, entry):
    """Turn a program's object file into one with a single entry point."""
    out = subprocess.run(["nm", "-g", "--defined-only", obj], stdout=subprocess.PIPE,
                         text=True, check=True).stdout
    strong = [l.split()[2] for l in out.splitlines() if l.split()[1] in "TDBR"]
    run(["objcopy"] + [f"--localize-symbol={s}" for s in strong if s != "main"] +
        [f"--redefine-sym=main={entry}", obj])


def compile_obj(src, obj, flags, instr, entry=None):
    tmp = obj + f".{os.getpid()}.o"
    d = tmp + ".d"
    base = ["g++", "-std=gnu++20", "-g1"] + flags
    cmd = base + ["-c", src, "-o", obj]
    if up_to_date(obj, cmd):
        return False
    t = time.time()
    run(base + ["-c", src, "-o", tmp, "-MD", "-MF", d])
    if instr:
        run(["objcopy"] + REDEF + [tmp])
    if entry:
        make_private(tmp, entry)
    os.replace(tmp, obj)
    write_stamp(obj, cmd, deps_of(d))
    os.unlink(d)
    if os.environ.get("SIM_VERBOSE"):
        print(f"  compiled {os.path.basename(obj)} in {time.time()-t:.1f}s", file=sys.stderr)
    return True


def rt_objs():
    jobs = []
    for s in RT_SRC:
        jobs.append((os.path.join(RT, s + ".cpp"), os.path.join(OUT, "rt_" + s + ".o"),
                     ["-O2", "-Wall", "-fno-builtin-malloc", "-I" + RT], False))
    return jobs


def bin_job(name):
    """`name` is SOURCE or SOURCE.vec"""
    src, _, var = name.partition(".")
    flags = ["-O1", "-ffinite-loops"] + (VEC if var == "vec" else SCALAR) + DEFS + INC + INSTR
    if src.startswith("bench"):
        flags = flags + ["-I" + os.path.join(REPO, "benchmark", "include"),
                         "-DSVS_BENCHMARK_MINIMAL=1", "-DSVS_BENCHMARK_BUILD_TEST_GENERATORS=0",
                         "-DSVS_BENCHMARK_VAMANA_SUPERSEARCH=0"]
    if src.startswith(("lvq", "lean")):  # EVE and MKL are not installed
        flags = flags + ["-isystem", os.path.join(VERIF, "sim", "stubs")]
    return (os.path.join(SCEN, src + ".cpp"), os.path.join(OUT, "scen_" + name + ".o"), flags, True)


def extra_jobs(name):
    """Library sources that a scenario is linked with."""
    src, _, var = name.partition(".")
    if src == "tools":
        base = os.path.join(REPO, "utils")
        flags = bin_job(name)[2] + ["-I" + base]
        return [(os.path.join(base, t + ".cpp"), os.path.join(OUT, "lib_tool_" + t + ".o"), flags,
                 True, "tool_" + t) for t in TOOLS]
    if not src.startswith("bench"):
        return []
    base = os.path.join(REPO, "benchmark", "src")
    flags = bin_job(name)[2]
    return [(os.path.join(base, f), os.path.join(OUT, "lib_bench_" + f[:-4] + ".o"), flags, True)
            for f in sorted(os.listdir(base)) if f.endswith(".cpp") and f != "main.cpp"]


def build(names, jobs=8):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        extra = {n: extra_jobs(n) for n in names}
        work = [bin_job(n) for n in names] + [w for n in names for w in extra[n]] + rt_objs()
        work = list({w[1]: w for w in work}.values())  # scenarios share library sources
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(lambda w: compile_obj(*w), work))
        rts = [w[1] for w in rt_objs()]

        def link(n):
            objs = [bin_job(n)[1]] + [w[1] for w in extra[n]]
            exe = os.path.join(OUT, n)
            cmd = ["g++", "-no-pie", "-rdynamic"] + objs + rts + ["-o", exe]
            if up_to_date(exe, cmd):
                return
            tmp = exe + f".{os.getpid()}"
            run(["g++", "-no-pie", "-rdynamic"] + objs + rts +
                ["-o", tmp, "-lfmt", "-lspdlog", "-ldl"])
            os.replace(tmp, exe)
            for r in objs + rts:
                _cache.pop(os.path.realpath(r), None)
            write_stamp(exe, cmd, objs + rts)
        for r in rts + [bin_job(n)[1] for n in names] + [w[1] for n in names for w in extra[n]]:
            _cache.pop(os.path.realpath(r), None)
            _cache.pop(r, None)
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(link, names))
    return {n: os.path.join(OUT, n) for n in names}


if __name__ == "__main__":
    t = time.time()
    try:
        build(sys.argv[1:])
    except BuildError as e:
        print(e)
        sys.exit(3)
    print(f"built in {time.time()-t:.1f}s")
