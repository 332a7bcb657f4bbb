#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree. Objects are cached by content hash of everything they are made of."""
import hashlib, os, subprocess, sys, concurrent.futures as cf, shutil, glob, json

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++-18"
EIGEN = "/usr/include/eigen3"
BASE = ["-std=c++23", "-stdlib=libc++", "-w", "-fno-omit-frame-pointer", "-I" + EIGEN, "-I" + REPO + "/include"]
WRAPS = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "__vasprintf_chk",
         "__cxa_allocate_exception", "__cxa_allocate_dependent_exception", "__cxa_get_globals",
         "fopen", "fopen64", "open", "open64", "openat", "creat", "read", "write", "close", "rename", "fsync", "fdatasync", "fileno", "fdopen", "mkstemp", "mmap", "mmap64", "munmap",
         "clock_gettime", "gettimeofday", "time", "getrandom", "getentropy"]
TWRAPS = ["_ZNSt3__111__call_onceERVmPvPFvS2_E", "_ZNSt3__119__shared_weak_count14__release_weakEv", "_ZNSt3__119__shared_weak_count4lockEv",
          "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_timedwait",
          "pthread_cond_signal", "pthread_cond_broadcast", "pthread_once", "pthread_create", "pthread_join", "pthread_detach",
          "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock",
          "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "sched_yield",
          "nanosleep", "clock_nanosleep", "usleep", "syscall",
          "_ZNSt3__16locale6globalERKS0_", "_ZNSt3__16localeC1Ev", "_ZNSt3__16localeC2Ev", "setlocale", "localeconv", "strtod", "atof", "strtok", "chdir", "getcwd", "umask",
          "setenv", "unsetenv", "putenv", "getenv", "drand48", "srand48", "tmpnam", "localtime", "gmtime", "ctime", "asctime"]
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-D_LIBCPP_DISABLE_EXTERN_TEMPLATE"]
CONF = {
    "asan": dict(lib=["-O1", "-g1", "-ftrivial-auto-var-init=zero", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
                 own=["-O1", "-g1", "-fsanitize=address"],
                 src=["main", "table", "seams", "props_save", "props_load", "ops", "props_mem", "props_hist"], wraps=WRAPS,
                 link=["-fsanitize=address,undefined"]),
    "plain": dict(lib=["-O1", "-g1"], own=["-O1", "-g1"],
                  src=["main", "table", "seams", "ops", "props_hist", "props_save", "props_load", "props_mem"], wraps=WRAPS, link=[]),
    "thr": dict(lib=["-O1", "-g1"] + TSAN, own=["-O1", "-g1", "-DSIM_THREADS"],
                extra={"ops": TSAN},
                src=["main", "table", "seams", "ops", "rt", "props_thr"], wraps=WRAPS + TWRAPS, link=["-pthread"]),
}


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def lib_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        r += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(r)


def lib_headers():
    r = []
    for top in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            r += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".hh", ".hxx", ".inl", ".ipp", ".tpp"))]
    return sorted(r)


class BuildError(Exception):
    pass


def build(name, quiet=True):
    """Returns the path of the simulator binary of configuration `name`."""
    c = CONF[name]
    hdr = digest(lib_headers())
    own_hdr = digest(glob.glob(VERIF + "/sim/*.hpp"))
    objdir = os.path.join(BUILD, name, "obj")
    os.makedirs(objdir, exist_ok=True)
    jobs = []
    for s in lib_sources():
        flags = BASE + c["lib"]
        key = hashlib.sha256((json.dumps(flags) + hdr + digest([s])).encode()).hexdigest()[:24]
        jobs.append((s, flags, os.path.join(objdir, "lib-" + key + ".o")))
    for s in c["src"]:
        p = os.path.join(VERIF, "sim", s + ".cpp")
        if not os.path.exists(p):
            continue
        flags = BASE + c["own"] + c.get("extra", {}).get(s, [])
        # only some of the simulator's own files see the library's headers
        lib_dep = s not in ("main", "table", "seams", "rt")
        key = hashlib.sha256((json.dumps(flags) + own_hdr + (hdr if lib_dep else "") + digest([p])).encode()).hexdigest()[:24]
        jobs.append((p, flags, os.path.join(objdir, s + "-" + key + ".o")))

    def compile1(j):
        src, flags, obj = j
        if os.path.exists(obj):
            return
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(src + "\n" + r.stderr[-4000:])
        os.replace(tmp, obj)

    # the big ones first
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(compile1, order))
    objs = [j[2] for j in jobs]
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, name, "sim-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [CXX, "-stdlib=libc++", "-static-libstdc++", "-fuse-ld=lld" if shutil.which("ld.lld-18") or shutil.which("ld.lld") else "-g"]
        cmd += c["link"] + objs + ["-Wl,--wrap=" + w for w in c["wraps"]] + ["-o", tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link\n" + r.stderr[-4000:])
        os.replace(tmp, exe)
    # keep the cache small
    for f in glob.glob(os.path.join(BUILD, name, "sim-*")):
        if f != exe and not f.endswith(".tmp"):
            os.unlink(f)
    olds = sorted((f for f in glob.glob(objdir + "/*.o") if f not in objs), key=os.path.getmtime)
    for f in olds[:-40]:
        os.unlink(f)
    return exe


if __name__ == "__main__":
    for n in sys.argv[1:] or list(CONF):
        print(build(n))
