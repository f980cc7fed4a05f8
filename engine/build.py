"""Compile /repo's current sources, one configuration at a time, to LLVM IR and
load the result.  Flags come from the project's Makefile (engine/probe.mk)."""
import json, os, shlex, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ISO_REPO", "/repo")
CLANG = "/usr/bin/clang-18"
CLANGXX = "/usr/bin/clang++-18"
if not os.path.exists(CLANGXX):
    CLANGXX = "/usr/bin/clang++"
if not os.path.exists(CLANG):
    CLANG = "/usr/bin/clang"

# name -> (make variables, debug flags?, unit-testing?, c++?)
CONFIGS = {
    "default":   ([], True, True, False),
    "release":   ([], False, False, False),
    "cpp":       ([], True, False, True),
    "cpp-release": ([], False, False, True),
    "tagging":   (["MEMORY_TAGGING=-DMEMORY_TAGGING=1"], True, True, False),
    "sanitize":  (["SANITIZE_CHUNKS=-DSANITIZE_CHUNKS=1"], True, True, False),
    "nothreads": (["THREAD_SUPPORT=-DTHREAD_SUPPORT=0"], True, True, False),
    "spinlock":  (["USE_SPINLOCK=-DUSE_SPINLOCK=1"], True, True, False),
    "smallmem":  (["STARTUP_MEM_USAGE=-DSMALL_MEM_STARTUP=1"], True, True, False),
    "prepop":    (["PRE_POPULATE_PAGES=-DPRE_POPULATE_PAGES=1"], True, True, False),
    "profiler":  (["HEAP_PROFILER=-DHEAP_PROFILER=1 -fno-omit-frame-pointer -fcommon"], True, True, False),
    "sanity":    (["ALLOC_SANITY=-DALLOC_SANITY=1"], True, True, False),
    "uninit":    (["ALLOC_SANITY=-DALLOC_SANITY=1", "UNINIT_READ_SANITY=-DUNINIT_READ_SANITY=1"], True, True, False),
    "strongiso": (["STRONG_SIZE_ISOLATION=-DSTRONG_SIZE_ISOLATION=1"], True, True, False),
    "uafsig":    (["UAF_PTR_PAGE=-DUAF_PTR_PAGE=1", "SIGNAL_HANDLER=-DSIGNAL_HANDLER=1"], True, True, False),
    "verifyslots": (["VERIFY_FREE_BIT_SLOTS=-DVERIFY_FREE_BIT_SLOTS=1"], True, True, False),
    "experimental": (["EXPERIMENTAL=-DEXPERIMENTAL=1"], True, True, False),
    "abortnull": (["ABORT_ON_NULL=-DABORT_ON_NULL=1"], True, True, False),
    "bigguards": (["BIG_ZONE_META_DATA_GUARD=-DBIG_ZONE_META_DATA_GUARD=1", "BIG_ZONE_GUARD=-DBIG_ZONE_GUARD=1"], True, True, False),
    "nomask":    (["MASK_PTRS=-DMASK_PTRS=0"], True, True, False),
    "named":     (["NAMED_MAPPINGS=-DNAMED_MAPPINGS=1"], True, True, False),
    "init":      (["ALLOC_SANITY=-DALLOC_SANITY=1", "AUTO_CTOR_DTOR=-DAUTO_CTOR_DTOR=0", "ISO_DTOR_CLEANUP=-DISO_DTOR_CLEANUP=1"], True, True, False),
    "libc":      (["MEMCPY_SANITY=-DMEMCPY_SANITY=1", "MEMSET_SANITY=-DMEMSET_SANITY=1"], True, True, False),
    "permrealloc": (["PERM_FREE_REALLOC=-DPERM_FREE_REALLOC=1"], True, True, False),
    "zeroallocs": (["NO_ZERO_ALLOCATIONS=-DNO_ZERO_ALLOCATIONS=0"], True, True, False),
    "protectfree": (["PROTECT_UNUSED_BIG_ZONE=-DPROTECT_FREE_BIG_ZONES=1"], True, True, False),
    "cpupin":    (["CPU_PIN=-DCPU_PIN=1", "SCHED_GETCPU=-DSCHED_GETCPU"], True, True, False),
    "nocanary":  (["DISABLE_CANARY=-DDISABLE_CANARY=1"], True, True, False),
    "cpp-abortnull": (["ABORT_ON_NULL=-DABORT_ON_NULL=1"], True, False, True),
}


class AnalysisBroken(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    return p.stdout


_dump_lock = threading.Lock()


def irdump_path():
    with _dump_lock:
        return _irdump_path()


def _irdump_path():
    """The exporter is built by setup_cmd; build it on demand otherwise."""
    out = os.path.join(HERE, "bin", "irdump")
    src = os.path.join(HERE, "irdump.cpp")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cxxf = sh(["llvm-config-18", "--cxxflags"]).split()
    ldf = sh(["llvm-config-18", "--ldflags"]).split()
    tmp = out + ".%d" % os.getpid()
    sh([CLANGXX, "-O1", "-w"] + cxxf + [src, "-o", tmp] + ldf + ["-lLLVM-18"])
    os.replace(tmp, out)
    return out


def probe(mkvars):
    env = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C"}
    out = sh(["make", "-s", "--no-print-directory", "-C", REPO, "-f", os.path.join(HERE, "probe.mk"), "CC=clang", "CXX=clang++",
              "OS_FLAGS=-Wno-error"] + list(mkvars) + ["vp-probe"], env=env)
    r = {}
    for l in out.splitlines():
        if "=" in l:
            k, v = l.split("=", 1)
            r[k] = v
    for k in ("CFLAGS", "CSRCS"):
        if not r.get(k):
            raise AnalysisBroken("could not read %s from the Makefile" % k)
    return r


def compile_config(name, workdir):
    mkvars, dbg, unit, cpp = CONFIGS[name]
    p = probe(mkvars)
    defs_c = [f for f in shlex.split(p["CFLAGS"]) if not f.startswith("-W")]
    defs_x = [f for f in shlex.split(p["CXXFLAGS"]) if not f.startswith("-W")]
    extra = ["-w", "-O0", "-g", "-fno-discard-value-names", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c"]
    d = os.path.join(workdir, name)
    os.makedirs(d, exist_ok=True)
    jobs = []
    for s in p["CSRCS"].split():
        o = os.path.join(d, s.replace("/", "_") + ".bc")
        jobs.append(([CLANG] + defs_c + (shlex.split(p["DEBUG"]) if dbg else []) + ([p["UNIT"]] if unit else []) + extra + [s, "-o", o], o))
    if cpp:
        for s in p["CXXSRCS"].split():
            o = os.path.join(d, s.replace("/", "_") + ".bc")
            jobs.append(([CLANGXX] + defs_x + (shlex.split(p["DEBUG"]) if dbg else []) + extra + [s, "-o", o], o))

    def one(j):
        sh(j[0], cwd=REPO)
        return j[1]
    with ThreadPoolExecutor(4) as ex:
        bcs = list(ex.map(one, jobs))
    js = os.path.join(d, "module.json")
    with open(js, "w") as f:
        q = subprocess.run([irdump_path()] + bcs, stdout=f, stderr=subprocess.PIPE, text=True)
    if q.returncode != 0:
        raise AnalysisBroken("irdump failed for %s: %s" % (name, q.stderr[-2000:]))
    for b in bcs:
        os.unlink(b)
    macros = {}
    for f in defs_c + (shlex.split(p["DEBUG"]) if dbg else []) + ([p["UNIT"]] if unit else []):
        if f.startswith("-D"):
            k, _, v = f[2:].partition("=")
            macros[k] = int(v) if v.lstrip("-").isdigit() else (v or 1)
    return js, macros, len(jobs)


def load_json(js):
    with open(js) as f:
        return json.load(f)
