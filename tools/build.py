#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree. Usage: build.py OUTDIR"""
import os, re, subprocess, sys, glob, hashlib, concurrent.futures as cf
REPO = os.environ.get("OSL_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REDEF = {"malloc": "sim_malloc", "calloc": "sim_calloc", "realloc": "sim_realloc", "free": "sim_free", "strdup": "sim_strdup",
         "__strdup": "sim_strdup2", "strndup": "sim_strndup", "__strndup": "sim_strndup2", "exit": "sim_exit", "abort": "sim_abort",
         "getenv": "sim_getenv", "secure_getenv": "sim_getenv2", "stderr": "sim_stderr", "stdout": "sim_stdout",
        "_exit": "sim_exit2", "_Exit": "sim_exit3", "quick_exit": "sim_exit4", "__assert_fail": "sim_assert_fail",
        "reallocarray": "sim_reallocarray", "asprintf": "sim_asprintf", "vasprintf": "sim_vasprintf", "getline": "sim_getline",
        "getdelim": "sim_getdelim", "printf": "sim_printf", "vprintf": "sim_vprintf", "puts": "sim_puts", "putchar": "sim_putchar",
        "perror": "sim_perror", "time": "sim_time", "clock": "sim_clock", "rand": "sim_rand", "random": "sim_random"}
LIBFLAGS = ["-O2", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-pie", "-w", "-DOSL_GMP_IS_HERE", "-std=gnu99",
            "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-builtin-printf", "-fno-builtin-puts", "-fno-builtin-putchar",
            "-fsanitize-coverage=trace-pc"]
CXXFLAGS = ["-std=c++17", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-pie", "-w", "-DOSL_GMP_IS_HERE"]

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout)
        raise SystemExit(2)
    return r.stdout

def lib_sources():
    mk = os.path.join(REPO, "Makefile.am")
    srcs = []
    if os.path.exists(mk):
        t = open(mk).read().replace("\\\n", " ")
        m = re.search(r"^libosl_la_SOURCES\s*=\s*(.*)$", t, re.M)
        if m:
            srcs = [w for w in m.group(1).split() if w.endswith(".c")]
    have = sorted(set(srcs))
    found = sorted(os.path.relpath(p, REPO) for p in glob.glob(REPO + "/source/**/*.c", recursive=True))
    keep = [s for s in have if os.path.exists(os.path.join(REPO, s))]
    # the CMake build globs; a new file may be listed in only one of the two
    return sorted(set(keep) | set(found))

def includes(out):
    inc = os.path.join(out, "inc", "osl")
    os.makedirs(inc, exist_ok=True)
    src = os.path.join(REPO, "include", "osl")
    for root, _, files in os.walk(src):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), src)
            dst = os.path.join(inc, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            data = open(os.path.join(root, f), "rb").read()
            if f == "scop.h.in":
                dst = dst[:-3]
                ver = b"0.9.7"
                m = re.search(r"AC_INIT\([^,]*,\s*\[?([0-9.]+)", open(os.path.join(REPO, "configure.ac")).read())
                if m: ver = m.group(1).encode()
                data = data.replace(b"@PACKAGE_VERSION@", ver)
            elif f == "scop.h":
                continue
            open(dst, "wb").write(data)
    return os.path.join(out, "inc")

def build(out):
    os.makedirs(out, exist_ok=True)
    inc = includes(out)
    os.makedirs(os.path.join(out, "o"), exist_ok=True)
    redef = os.path.join(out, "redef.txt")
    open(redef, "w").write("".join(f"{a} {b}\n" for a, b in REDEF.items()))
    srcs = lib_sources()
    jobs, objs = [], []
    for name in ("ops", "model", "core", "props", "edit", "ints", "reads", "texts", "names", "format", "main"):
        o = os.path.join(out, "o", "sim_" + name + ".o")
        jobs.append([["g++", *CXXFLAGS, "-I" + inc, "-c", os.path.join(HERE, "sim", name + ".cpp"), "-o", o]])
        objs.append(o)
    for s in srcs:
        o = os.path.join(out, "o", s.replace("/", "_")[:-2] + ".o")
        jobs.append([["gcc", *LIBFLAGS, "-I" + inc, "-I" + os.path.join(REPO, "include"), "-c", os.path.join(REPO, s), "-o", o],
                     ["objcopy", "--redefine-syms=" + redef, "--rename-section", ".data=osl_data", "--rename-section", ".bss=osl_bss", o]])
        objs.append(o)
    def run(js):
        for j in js: sh(j)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(run, jobs))
    exe = os.path.join(out, "sim")
    sh(["g++", "-fsanitize=address", "-no-pie", "-rdynamic", *objs, "-lgmp", "-ldl", "-o", exe])
    return exe

def blocks(out):
    """Number of instrumented basic blocks of the library."""
    n = 0
    for o in glob.glob(os.path.join(out, "o", "source_*.o")):
        n += subprocess.run(["objdump", "-r", o], stdout=subprocess.PIPE, text=True).stdout.count("__sanitizer_cov_trace_pc")
    return n

if __name__ == "__main__":
    print(build(sys.argv[1]))
