#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree."""
import os, re, subprocess, sys, glob, hashlib, concurrent.futures as cf, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"

WRAP = ("open open64 openat openat64 __open_2 creat close fstat fstat64 stat stat64 lstat access "
        "fallocate fallocate64 posix_fallocate posix_fallocate64 ftruncate ftruncate64 fsync fdatasync syncfs "
        "mmap mmap64 munmap msync madvise posix_madvise posix_fadvise write read pwrite pwrite64 pread pread64 "
        "lseek lseek64 rename unlink fchmod flock fcntl fcntl64").split()

CONFIGS = {
    # A: library error checking on, preallocation and mmap64 available, AddressSanitizer
    "A": dict(defs=["SERIALIZATION_ERROR_CHECKING"], have=["checkpoint_has_fallocate", "checkpoint_has_mmap64"],
              flags=["-fsanitize=address", "-fno-omit-frame-pointer"]),
    # B: release-like: no error checking, no assert, neither fallocate nor mmap64, own red zones
    "B": dict(defs=["NDEBUG", "SIM_REDZONE", "SIM_NO_FALLOCATE", "SIM_GIANT"], have=[], flags=[]),
    # D: no error checking, but with assertions
    "D": dict(defs=["SIM_REDZONE", "SIM_GIANT"], have=["checkpoint_has_fallocate"], flags=[]),
    # F: for restarts: every simulated process is an execution of its own, at one of two addresses
    "F": dict(defs=["SERIALIZATION_ERROR_CHECKING", "SIM_RESTART"], have=["checkpoint_has_fallocate", "checkpoint_has_mmap64"],
              flags=["-fno-pie"], bases=["0x400000", "0x51400000"]),
    # G: the same without error checking
    "G": dict(defs=["NDEBUG", "SIM_RESTART", "SIM_REDZONE", "SIM_NO_FALLOCATE"], have=[], flags=["-fno-pie"], bases=["0x400000", "0x51400000"]),
    # M: the classes of the application live in dynamically loaded modules
    "M": dict(defs=["SERIALIZATION_ERROR_CHECKING", "SIM_MODULES", "SIM_FORK", "SIM_REDZONE"], have=["checkpoint_has_fallocate", "checkpoint_has_mmap64"],
              flags=["-fPIC"], modules=6),
    # T: for simulated threads: memory accesses of library, application and container code
    # are instrumented; the runtime behind the instrumentation is sim/tsan_rt.cc
    "T": dict(defs=["SERIALIZATION_ERROR_CHECKING", "SIM_THREADS", "SIM_FORK"], have=["checkpoint_has_fallocate", "checkpoint_has_mmap64"],
              flags=[], threads=True),
    # U: the same without error checking
    "U": dict(defs=["NDEBUG", "SIM_THREADS", "SIM_FORK"], have=[], flags=[], threads=True),
}

class BuildError(Exception):
    pass

def cmake_config(have, dst):
    """What CMake would generate from the template, for a chosen set of features."""
    src = open(os.path.join(REPO, "src/checkpoint/cmake_config.h.in")).read()
    def sub(m):
        return "#define " + m.group(1) if m.group(1) in have else "/* #undef " + m.group(1) + " */"
    out = re.sub(r"#cmakedefine\s+(\w+)", sub, src)
    os.makedirs(os.path.join(dst, "checkpoint"), exist_ok=True)
    open(os.path.join(dst, "checkpoint", "cmake_config.h"), "w").write(out)

def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src/checkpoint/**/*.cc"), recursive=True))

def run_cmds(cmds, what):
    def one(c):
        return c, subprocess.run(c, capture_output=True, text=True)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for c, r in ex.map(one, cmds):
            if r.returncode:
                raise BuildError("%s: %s\n%s" % (what, " ".join(c), (r.stderr + r.stdout)[-6000:]))

def base_flags(cfg, inc):
    c = CONFIGS[cfg]
    return (["-std=c++17", "-O0", "-g0", "-pthread", "-w",
             "-I" + os.path.join(REPO, "src"), "-I" + inc] + ["-D" + d for d in c["defs"]] + c["flags"])

THREAD_SRC = ["core", "fs", "giantmem", "rt", "main", "c13", "tsan_rt"]          # the simulator itself: not instrumented
THREAD_INSTR = ["users", "c13_types"]
TSAN = ["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
SIM_SRC = ["core", "fs", "giantmem", "giant", "users", "rt", "p_file", "p_stream", "p_save", "p_load", "p_poly", "fam", "fam2", "fam3", "main"]

def build_sim(cfg, outdir):
    """The in-process simulator; returns the path of the binary."""
    inc = os.path.join(outdir, "inc")
    os.makedirs(outdir, exist_ok=True)
    cmake_config(CONFIGS[cfg]["have"], inc)
    fl = base_flags(cfg, inc)
    simdir = os.path.join(VERIF, "sim")
    if CONFIGS[cfg].get("threads"):
        instr = sorted(glob.glob(os.path.join(simdir, "zoo[0-9]*.cc"))) + [os.path.join(simdir, s + ".cc") for s in THREAD_INSTR] + lib_sources()
        plain = [os.path.join(simdir, s + ".cc") for s in THREAD_SRC]
        cmds, objs = [], []
        for s in instr + plain:      # instrumented ones first: the linker keeps the first copy of an inline function
            o = os.path.join(outdir, os.path.basename(s)[:-3] + "-" + hashlib.md5(s.encode()).hexdigest()[:6] + ".o")
            objs.append(o)
            cmds.append([CXX] + fl + (TSAN if s in instr else ["-O1"]) + ["-c", s, "-o", o])
        cmds.sort(key=lambda c: -("zoo" in c[-3]))
        run_cmds(cmds, "compiling configuration " + cfg)
        exe = os.path.join(outdir, "sim")
        run_cmds([[CXX] + fl + objs + ["-Wl,--wrap=" + w for w in WRAP] + ["-rdynamic", "-ldl", "-o", exe]], "linking configuration " + cfg)
        return exe
    wrap = ["-Wl,--wrap=" + w for w in WRAP]
    if CONFIGS[cfg].get("modules"):
        srcs = [os.path.join(simdir, s + ".cc") for s in ["core", "fs", "giantmem", "users", "rt", "p_poly", "c14m", "main"]] + lib_sources()
        cmds, objs, mods = [], [], []
        for s in srcs:
            o = os.path.join(outdir, os.path.basename(s)[:-3] + "-" + hashlib.md5(s.encode()).hexdigest()[:6] + ".o")
            objs.append(o)
            cmds.append([CXX] + fl + ["-c", s, "-o", o])
        for m in range(1, CONFIGS[cfg]["modules"] + 1):
            cmds.insert(0, [CXX] + fl + ["-DMOD=%d" % m, "-shared", os.path.join(simdir, "mods.cc")] + wrap + ["-Wl,-z,lazy", "-o", os.path.join(outdir, "mod%d.so" % m)])
        run_cmds(cmds, "compiling configuration " + cfg)
        exe = os.path.join(outdir, "sim")
        # everything of the library is offered to the modules, as in a program linked with -rdynamic
        run_cmds([[CXX] + fl + objs + wrap + ["-rdynamic", "-ldl", "-o", exe]], "linking configuration " + cfg)
        return exe
    sim_src = ["core", "fs", "giantmem", "users", "rt", "fam", "fam2", "fam3", "c17", "main"] if "SIM_RESTART" in CONFIGS[cfg]["defs"] else SIM_SRC
    srcs = [os.path.join(simdir, s + ".cc") for s in sim_src] + sorted(glob.glob(os.path.join(simdir, "zoo[0-9]*.cc")))
    srcs += lib_sources()
    # big translation units first
    srcs.sort(key=lambda s: -("zoo" in s or "fam" in s))
    cmds, objs = [], []
    for s in srcs:
        o = os.path.join(outdir, os.path.basename(s)[:-3] + "-" + hashlib.md5(s.encode()).hexdigest()[:6] + ".o")
        objs.append(o)
        cmds.append([CXX] + fl + (["-O2"] if s.endswith("/giant.cc") else []) + ["-c", s, "-o", o])
    run_cmds(cmds, "compiling configuration " + cfg)
    exe = os.path.join(outdir, "sim")
    if "bases" in CONFIGS[cfg]:
        run_cmds([[CXX] + fl + objs + wrap + ["-no-pie", "-Wl,-Ttext-segment=" + b, "-ldl", "-o", exe + x] for x, b in zip(["", "-b"], CONFIGS[cfg]["bases"])],
                 "linking configuration " + cfg)
        return exe
    run_cmds([[CXX] + fl + objs + wrap + ["-ldl", "-o", exe]], "linking configuration " + cfg)
    return exe

if __name__ == "__main__":
    t = time.time()
    try:
        for cfg in sys.argv[1:]:
            print(build_sim(cfg, os.path.join(BUILD, "dev" + cfg)), round(time.time() - t, 1))
    except BuildError as e:
        print(e); sys.exit(1)
