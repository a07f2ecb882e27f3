#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree, outside /repo.

Usage: build.py [base|conc]   -> prints the path of the simulator binary.

The library and lint sources are copied from the working tree, the grammars are
compiled with leg, every object is instrumented (ASan + coverage callbacks, which
are the simulator's step counter and preemption points) and its calls to the
allocator, to assert/abort/exit and (lint) to fopen are redirected to the seams of
the simulator with objcopy, so the sources themselves need no change."""
import sys, os, re, glob, hashlib, subprocess, shutil, fcntl, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CC = "/usr/bin/clang" if os.path.exists("/usr/bin/clang") else "clang"
CXX = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else "clang++"

CONFIG_H = """
#define HAVE_OPEN_MEMSTREAM 1
#define HAVE_PTHREADS 1
#define HAVE_ENDIAN_H 1
#define HAVE_STDBOOL_H 1
#define HAVE_UNISTD_H 1
#define HAVE_STRERROR_R 1
#define HAVE_DECL_STRERROR_R 1
#define HAVE_C_VARARRAYS 1
#define PACKAGE "libcypher-parser"
#define PACKAGE_NAME "libcypher-parser"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_URL ""
#define PACKAGE_TARNAME "libcypher-parser"
#define PACKAGE_VERSION "0.6.4~devel"
#define PACKAGE_STRING "libcypher-parser 0.6.4~devel"
#define PACKAGE_MAJOR_VERSION 0
#define PACKAGE_MINOR_VERSION 6
#define PACKAGE_PATCH_VERSION 4
#define PACKAGE_DEVELOPMENT_VERSION "devel"
#define VERSION "0.6.4~devel"
#define STDC_HEADERS 1
#define TLS _Thread_local
"""
SUBST = {"PACKAGE_VERSION": "0.6.4~devel", "PACKAGE_MAJOR_VERSION": "0", "PACKAGE_MINOR_VERSION": "6",
         "PACKAGE_PATCH_VERSION": "4", "PACKAGE_DEVELOPMENT_VERSION": "devel", "PACKAGE_STATUS_VERSION": "0"}
REDIRECT = ["malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "strndup", "asprintf", "vasprintf",
            "posix_memalign", "aligned_alloc", "__assert_fail", "abort"]
REDIRECT_LINT = REDIRECT + ["exit", "_exit", "_Exit", "fopen", "fopen64", "isatty", "fileno", "atexit"]

# the concurrency variant also sees the library's calls into libc as accesses to memory
REDIRECT_CONC = ["__asan_memcpy", "__asan_memmove", "__asan_memset", "memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strnlen", "strcpy", "strncpy",
                 "strcat", "strncat", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "strstr", "snprintf", "vsnprintf", "sprintf",
                 "fputs", "fputc", "fwrite", "strtol", "strtoul", "strtod", "pthread_mutex_lock", "pthread_once"]

BASEFLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-w", "-fPIC",
             "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-realloc", "-fno-builtin-free",
             "-fno-builtin-strdup", "-fno-builtin-strndup"]
VARIANTS = {
    "base": ["-fsanitize-coverage=trace-pc-guard,no-prune"],
    # every memory access is a preemption point as well
    "conc": ["-fsanitize-coverage=trace-pc-guard,no-prune,trace-loads,trace-stores"],
}

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), r.stdout[-4000:]))
        raise SystemExit(3)
    return r.stdout

def lib_files():
    fs = []
    for ext in ("c", "h", "leg", "in"):
        fs += glob.glob(os.path.join(REPO, "lib/src/*." + ext))
    fs = [f for f in fs if not f.endswith("_leg.c") and not f.endswith("/cypher-parser.h")
          and not f.endswith("Makefile.in")]
    fs += glob.glob(os.path.join(REPO, "linter/src/*.[ch]"))
    return sorted(fs)

def sim_files():
    return sorted(glob.glob(os.path.join(VERIF, "sim/*.cpp")) + glob.glob(os.path.join(VERIF, "sim/*.h"))
                  + [os.path.join(VERIF, "bin/gen_accessors.py"), os.path.abspath(__file__)])

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(os.path.basename(f).encode() + b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:16]

def build(variant="base", verbose=False):
    libs, sims = lib_files(), sim_files()
    key = digest(libs + sims, variant)
    os.makedirs(OUT, exist_ok=True)
    final = os.path.join(OUT, "%s-%s" % (variant, key))
    with open(os.path.join(OUT, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, "sim")):
            os.utime(final)
            return os.path.join(final, "sim")
        prune(variant)
        d = final + ".tmp%d" % os.getpid()
        import atexit; atexit.register(shutil.rmtree, d, True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/lib/src"); os.makedirs(d + "/linter/src"); os.makedirs(d + "/o")
        for f in libs:
            shutil.copy(f, os.path.join(d, os.path.relpath(f, REPO)))
        open(d + "/config.h", "w").write(CONFIG_H)
        hin = open(d + "/lib/src/cypher-parser.h.in").read()
        open(d + "/lib/src/cypher-parser.h", "w").write(
            re.sub(r"@([A-Z_]+)@", lambda m: SUBST.get(m.group(1), "0"), hin))
        for leg in glob.glob(d + "/lib/src/*.leg"):
            sh(["leg", "-o", leg[:-4] + "_leg.c", leg])
        sh([sys.executable, os.path.join(VERIF, "bin/gen_accessors.py"), d + "/lib/src/cypher-parser.h",
            d + "/accessors.inc"])
        flags = BASEFLAGS + VARIANTS[variant]
        jobs = []
        csrc = [f for f in sorted(glob.glob(d + "/lib/src/*.c")) if not f.endswith("_leg.c")]
        # longest first
        csrc.sort(key=lambda f: (0 if f.endswith("/parser.c") else 1, f))
        for c in csrc:
            o = d + "/o/" + os.path.basename(c)[:-2] + ".o"
            jobs.append(([CC, "-std=gnu11"] + flags + ["-I", d + "/lib/src", "-c", c, "-o", o], o, REDIRECT + (REDIRECT_CONC if variant == "conc" else [])))
        for c in sorted(glob.glob(d + "/linter/src/*.c")):
            o = d + "/o/lint_" + os.path.basename(c)[:-2] + ".o"
            jobs.append(([CC, "-std=gnu11"] + flags + ["-Dmain=lint_main", "-I", d + "/lib/src", "-c", c, "-o", o],
                         o, REDIRECT_LINT))
        simflags = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-w",
                    "-I", d + "/lib/src", "-I", d, "-I", VERIF + "/sim", "-D_GNU_SOURCE"]
        for c in sorted(glob.glob(VERIF + "/sim/*.cpp")):
            o = d + "/o/sim_" + os.path.basename(c)[:-4] + ".o"
            jobs.insert(0, ([CXX] + simflags + ["-c", c, "-o", o], o, None))

        def run(j):
            cmd, o, red = j
            sh(cmd)
            if red:
                args = ["objcopy"]
                for s in red:
                    args += ["--redefine-sym", "%s=sim_%s" % (s, "assert_fail" if s == "__assert_fail" else s)]
                sh(args + [o])
            return o
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            objs = list(ex.map(run, jobs))
        link = [CXX, "-fsanitize=address", "-o", d + "/sim.tmp"]
        if variant == "conc":      # a separate object, so that its global state can be put back to that of a fresh process
            lib = [o for o in objs if not os.path.basename(o).startswith(("sim_", "lint_"))]
            sh([CC, "-shared", "-fsanitize=address", "-Wl,-z,now,-soname,libcp.so", "-o", d + "/libcp.so"] + lib + ["-lm"])
            link += ["-rdynamic"] + [o for o in objs if o not in lib] + [d + "/libcp.so", "-Wl,-rpath,$ORIGIN"]
        else:
            link += objs
        sh(link + ["-lpthread", "-lm", "-ldl"])
        os.rename(d + "/sim.tmp", d + "/sim")
        shutil.rmtree(final, ignore_errors=True)
        os.rename(d, final)
        return os.path.join(final, "sim")

def prune(variant):
    """Keep the disk small: only the most recent few builds stay."""
    ds = [p for p in glob.glob(os.path.join(OUT, variant + "-*")) if os.path.isdir(p)]
    ds.sort(key=os.path.getmtime)
    for p in ds[:-4]:
        shutil.rmtree(p, ignore_errors=True)

if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "base"))
