#!/usr/bin/env python3
"""Builds the simulator for one build variant of /repo's current working tree: build.py VARIANT... (prints the path)."""
import sys, os, re, glob, hashlib, subprocess, shutil, fcntl, tempfile
ROOT = os.path.dirname(os.path.abspath(__file__)); SIM = ROOT + "/sim"
REPO = os.environ.get("ISO_REPO", "/repo"); BUILD = os.environ.get("ISO_BUILD", ROOT + "/build")
DEF = dict(THREAD_SUPPORT=1, MALLOC_HOOK=1, HUGE_PAGES=1, THP_PAGES=1, RANDOMIZE_FREELIST=1, NO_ZERO_ALLOCATIONS=1, USE_MLOCK=1,
           AUTO_CTOR_DTOR=1, MASK_PTRS=1, ABORT_NO_ENTROPY=1, DONT_USE_NEON=1, LEAK_DETECTOR=1, MEM_USAGE=1, DISABLE_CANARY=0,
           SANITIZE_CHUNKS=0, FUZZ_MODE=0, PERM_FREE_REALLOC=0, MEMORY_TAGGING=0, USE_SPINLOCK=0, SMALL_MEM_STARTUP=0,
           PRE_POPULATE_PAGES=0, CPU_PIN=0, ALLOC_SANITY=0, MEMCPY_SANITY=0, MEMSET_SANITY=0, UNINIT_READ_SANITY=0,
           STRONG_SIZE_ISOLATION=0, UAF_PTR_PAGE=0, VERIFY_FREE_BIT_SLOTS=0, EXPERIMENTAL=0, NAMED_MAPPINGS=0, ABORT_ON_NULL=0,
           ISO_DTOR_CLEANUP=0, SIGNAL_HANDLER=0, BIG_ZONE_META_DATA_GUARD=0, BIG_ZONE_GUARD=0, PROTECT_FREE_BIG_ZONES=0, SCHED_GETCPU=1)
V = {
    "base": {}, "uninit": dict(ALLOC_SANITY=1, UNINIT_READ_SANITY=1), "spin": dict(USE_SPINLOCK=1), "nothread": dict(THREAD_SUPPORT=0), "tag": dict(MEMORY_TAGGING=1),
    "sanit": dict(SANITIZE_CHUNKS=1), "guards": dict(BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1),
    "metaguard": dict(BIG_ZONE_META_DATA_GUARD=1), "bigguard": dict(BIG_ZONE_GUARD=1),
    "protbig": dict(PROTECT_FREE_BIG_ZONES=1), "sane": dict(ALLOC_SANITY=1), "sane_small": dict(ALLOC_SANITY=1, SIM_SMALL_SAMPLE_TABLE=8),
    "uaf": dict(UAF_PTR_PAGE=1), "uafsig": dict(UAF_PTR_PAGE=1, SIGNAL_HANDLER=1), "strong": dict(STRONG_SIZE_ISOLATION=1),
    "abortnull": dict(ABORT_ON_NULL=1), "cpupin": dict(CPU_PIN=1), "prof": dict(HEAP_PROFILER=1),
    "libc": dict(MEMCPY_SANITY=1, MEMSET_SANITY=1), "cpp": dict(CPP=1), "smallmem": dict(SMALL_MEM_STARTUP=1),
    "permrealloc": dict(PERM_FREE_REALLOC=1), "nomask": dict(MASK_PTRS=0), "vfbs": dict(VERIFY_FREE_BIT_SLOTS=1),
    "dtor": dict(ISO_DTOR_CLEANUP=1, ALLOC_SANITY=1), "nocanary": dict(DISABLE_CANARY=1), "nozero": dict(NO_ZERO_ALLOCATIONS=0),
    "named": dict(NAMED_MAPPINGS=1), "populate": dict(PRE_POPULATE_PAGES=1), "noctor": dict(AUTO_CTOR_DTOR=0),
    "dtornoctor": dict(ISO_DTOR_CLEANUP=1, ALLOC_SANITY=1, AUTO_CTOR_DTOR=0), "norand": dict(RANDOMIZE_FREELIST=0), "exper": dict(EXPERIMENTAL=1),
    "tagsanit": dict(MEMORY_TAGGING=1, SANITIZE_CHUNKS=1), "taguaf": dict(MEMORY_TAGGING=1, UAF_PTR_PAGE=1),
    "cppstrong": dict(CPP=1, STRONG_SIZE_ISOLATION=1), "spinguards": dict(USE_SPINLOCK=1, BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1),
}
SYS = ("mmap munmap mprotect madvise mlock munlock getrandom sysconf write getpid abort pthread_mutex_init pthread_mutex_lock pthread_mutex_trylock "
       "pthread_mutex_unlock pthread_mutex_destroy sigaction getrusage open close getenv dladdr sched_getcpu getcpu prctl sched_yield "
       "syscall ioctl poll read pthread_create").split()
HOOK = ("malloc free calloc realloc reallocarray posix_memalign __posix_memalign memalign aligned_alloc __libc_malloc __libc_free __libc_calloc "
        "__libc_realloc __libc_reallocarray __libc_memalign malloc_usable_size malloc_size malloc_good_size valloc pvalloc").split()
MEM = "memcpy memmove memset bzero".split()

def tool(n, *alts):
    for c in (n,) + alts:
        p = shutil.which(c)
        if p: return p
    raise SystemExit("build.py: no %s" % n)

def tree_hash():
    h = hashlib.sha256()
    for d in (REPO + "/src", REPO + "/include", SIM):
        for f in sorted(glob.glob(d + "/**", recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:16]

class BuildError(Exception): pass
def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout

def build(variant, th=None):
    th = th or tree_hash()
    out = f"{BUILD}/{variant}-{th}"
    os.makedirs(BUILD, exist_ok=True)
    exe = out + "/sim"
    with open(f"{BUILD}/.lock-{variant}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(f"{BUILD}/{variant}-*"):
            if re.fullmatch(re.escape(variant) + r"-[0-9a-f]{16}(\.tmp)?", os.path.basename(old)):
                shutil.rmtree(old, ignore_errors=True)
        tmp = out + ".tmp"
        os.makedirs(tmp)
        d = dict(DEF); d.update(V[variant])
        cpp = d.pop("CPP", 0)
        flags = [f"-D{k}={v}" for k, v in d.items()]
        if d.get("SIGNAL_HANDLER"): flags.append("-D_GNU_SOURCE=1")  # siginfo_t is not declared under -std=c11
        clang, clangxx, objcopy, readelf = tool("clang"), tool("clang++"), tool("objcopy", "llvm-objcopy"), tool("readelf", "llvm-readelf")
        inc = ["-I", REPO + "/include", "-I", SIM]
        instr = ["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-fno-pic", "-fcommon", "-w", "-DISOALLOC_SIM=1",
                 "-fno-stack-protector", "-D__thread=__attribute__((section(\"sim_tls\")))", "-D_Thread_local=__attribute__((section(\"sim_tls\")))"]
        plain = ["-O2", "-D_GNU_SOURCE=1", "-g", "-fno-pic", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-w", "-fno-strict-aliasing", "-fcommon"]
        procs = []
        srcs = sorted(glob.glob(REPO + "/src/*.c"))
        if cpp: srcs += sorted(glob.glob(REPO + "/src/*.cpp"))
        def start(cmd): procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        robjs, sobjs = [], []
        for s in srcs:
            o = f"{tmp}/r_{os.path.basename(s)}.o"; robjs.append(o)
            cx = s.endswith(".cpp")
            start([clangxx if cx else clang, "-c", s, "-o", o, "-std=" + ("c++17" if cx else "c11"), "-fvisibility=hidden"] + instr + inc + flags + (["-DCPP_SUPPORT=1"] if cx else []))
        for s in sorted(glob.glob(SIM + "/*.c")):
            o = f"{tmp}/s_{os.path.basename(s)}.o"; sobjs.append(o)
            start([clang, "-c", s, "-o", o, f'-DSIM_VARIANT="{variant}"', f"-DSIM_CPP={cpp}"] + plain + inc + flags)
        if cpp:
            o = f"{tmp}/s_cxx.o"; sobjs.append(o)
            start([clangxx, "-c", SIM + "/cxx_shim.cpp", "-o", o, "-std=c++17"] + plain)
        err = ""
        for c, p in procs:
            t, _ = p.communicate()
            if p.returncode: err += c[2] + "\n" + t
        if err:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError(err[-6000:])
        for o in robjs:
            args = []
            for s in SYS: args += ["--redefine-sym", f"{s}=sim_{s}"]
            b = os.path.basename(o)
            if b == "r_malloc_hook.c.o":
                for s in HOOK: args += ["--redefine-sym", f"{s}=hook_{s}"]
            if b == "r_libc_hook.c.o":
                for s in MEM: args += ["--redefine-sym", f"{s}=hook_{s}"]
            if b.endswith(".cpp.o"):
                for l in run([readelf, "-sW", o]).splitlines():
                    m = re.search(r"\s(_Z(?:nw|na|dl|da)\S*)$", l)
                    if m: args += ["--redefine-sym", f"{m.group(1)}=hook_{m.group(1)}"]
            for l in run([readelf, "-SW", o]).splitlines():
                m = re.search(r"\]\s+(\.(init|fini)_array\S*)\s", l)
                if m and m.group(1) not in (".init_array.0", ".init_array.1"):
                    args += ["--rename-section", f"{m.group(1)}=sim_{'ctors' if m.group(2) == 'init' else 'dtors'},alloc,load,data,contents"]
            run([objcopy] + args + [o])
        run([clangxx if cpp else clang, "-no-pie", "-o", tmp + "/sim"] + sobjs + robjs + ["-ldl", "-lm", "-Wl,--export-dynamic-symbol=cp_*"])
        for o in robjs + sobjs: os.unlink(o)
        os.rename(tmp, out)
    return exe

if __name__ == "__main__":
    for v in sys.argv[1:] or ["base"]:
        for w in (V if v == "all" else [v]):
            try: print(build(w))
            except BuildError as e: print("BUILD FAILED", w, e); sys.exit(1)
