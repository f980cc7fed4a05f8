"""Planting aid:  plant(id, property, [(file, old, new)...], needs, breaks, demo_c, ...) writes seeded/<id>/;
plant.py test [ids] confirms each in scratch copies (build, stable tests, demo with and without)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = "/verif"
FLAGS = ("-w -g -O1 -Iinclude -DTHREAD_SUPPORT=%(threads)s -pthread -DPRE_POPULATE_PAGES=0 -DSMALL_MEM_STARTUP=0 -DDISABLE_CANARY=0 "
         "-DALLOC_SANITY=0 -DMEMCPY_SANITY=0 -DUNINIT_READ_SANITY=0 -DCPU_PIN=0 -DSCHED_GETCPU -DEXPERIMENTAL=0 -DUAF_PTR_PAGE=0 "
         "-DVERIFY_FREE_BIT_SLOTS=0 -DNAMED_MAPPINGS=0 -DABORT_ON_NULL=0 -DNO_ZERO_ALLOCATIONS=1 -DABORT_NO_ENTROPY=1 -DISO_DTOR_CLEANUP=0 "
         "-DRANDOMIZE_FREELIST=1 -DUSE_SPINLOCK=0 -DHUGE_PAGES=1 -DTHP_PAGES=1 -DUSE_MLOCK=1 -DMEMORY_TAGGING=%(tagging)s -DSTRONG_SIZE_ISOLATION=0 "
         "-DMEMSET_SANITY=0 -DAUTO_CTOR_DTOR=1 -DSIGNAL_HANDLER=0 -DBIG_ZONE_META_DATA_GUARD=0 -DBIG_ZONE_GUARD=0 -DMASK_PTRS=1 "
         "-DSANITIZE_CHUNKS=0 -DFUZZ_MODE=0 -DPERM_FREE_REALLOC=0 -DDONT_USE_NEON=1 -DDEBUG=1 -DLEAK_DETECTOR=1 -DMEM_USAGE=1 -DUNIT_TESTING=1")

DEMO_SH = """#!/bin/bash
# exits 0 when the property holds, 1 when it is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
%(cc)s %(flags)s %(extra)s %(srcs)s "$here/%(demo)s" -o "$d/demo" -ldl || exit 3
cd "$d" || exit 3
ulimit -c 0
%(pre)stimeout %(timeout)s "$d/demo" 2>/dev/null
rc=$?
echo "demo: exit $rc"
exit $rc
"""

HEAD = r'''#include "iso_alloc.h"
#include "iso_alloc_internal.h"
#include <sys/wait.h>
#include <signal.h>

/* runs f in a child; 1 when the child was killed by a signal (the allocator aborted) */
static int dies(void (*f)(void)) {
    pid_t c = fork();
    if(c == 0) { f(); _exit(0); }
    int st = 0;
    waitpid(c, &st, 0);
    return WIFSIGNALED(st);
}
#define CHECK(x) do { if(!(x)) { fprintf(stdout, "broken: %s (line %d)\n", #x, __LINE__); fflush(stdout); _exit(1); } } while(0)
'''


def plant(id, prop, edits, needs, breaks, demo, flags=None, extra="", pre="", timeout=60, cc="clang", srcs=None, demoname="demo.c", head=True, hook=False, tagging=0, threads=1):
    d = os.path.join(VERIF, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        files = sorted({f for f, _, _ in edits})
        for side in "ab":
            for f in files:
                p = os.path.join(tmp, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copy(os.path.join("/repo", f), p)
        for f, o, n in edits:
            p = os.path.join(tmp, "b", f)
            s = open(p).read()
            if s.count(o) != 1:
                sys.exit("%s: pattern found %d times in %s:\n%s" % (id, s.count(o), f, o))
            open(p, "w").write(s.replace(o, n))
        q = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp, stdout=subprocess.PIPE, text=True)
        out = q.stdout
        # a/src/x.c b/src/x.c prefixes
        open(os.path.join(d, "patch.diff"), "w").write(out)
    finally:
        shutil.rmtree(tmp)
    fl = (flags or FLAGS) % {"tagging": tagging, "threads": threads}
    if hook:
        fl += " -DMALLOC_HOOK=1"
    sh = DEMO_SH % {"cc": cc, "flags": fl, "extra": extra, "srcs": srcs or "src/*.c", "demo": demoname, "pre": pre, "timeout": timeout}
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, demoname), "w").write((HEAD if head else "") + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def ns(copy, cmd):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/")


def test(id):
    base = tempfile.mkdtemp(prefix="plantt.", dir="/tmp")
    copy = base + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        s = os.path.join(VERIF, "seeded", id)
        dd = base + "/demo"
        shutil.copytree(s, dd)
        clean = ns(copy, "bash %s/demo.sh" % dd)
        p = subprocess.run(["git", "-C", copy, "apply", s + "/patch.diff"], stderr=subprocess.PIPE, text=True)
        if p.returncode:
            return id, "does not apply: " + p.stderr
        bad = ns(copy, "bash %s/demo.sh" % dd)
        t = ns(copy, "bash /opt/vp/test.sh %s/o.json" % base)
        base_ok = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try:
            ok = set(json.load(open(base + "/o.json"))["passed"])
        except Exception:
            ok = set()
        lost = sorted(base_ok - ok)
        v = []
        if clean.returncode != 0:
            v.append("demo fails on the clean tree (%d): %s" % (clean.returncode, clean.stdout[-300:]))
        if bad.returncode in (0, 3):
            v.append("demo does not fail with the patch (%d): %s" % (bad.returncode, bad.stdout[-300:]))
        if lost:
            v.append("%d tests lost: %s" % (len(lost), lost[:6]))
        return id, "; ".join(v) or "OK  [%s]" % bad.stdout.strip().replace("\n", " | ")[-120:]
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    if sys.argv[1] == "test":
        ids = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
        with ThreadPoolExecutor(3) as ex:
            for id, r in ex.map(test, ids):
                print("%-34s %s" % (id, r), flush=True)
    elif sys.argv[1] == "check":
        # which checks see it: each seed on a scratch copy of the sources
        ids = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
        for id in ids:
            meta = json.load(open(VERIF + "/seeded/%s/meta.json" % id))
            base = tempfile.mkdtemp(prefix="plantc.", dir="/tmp")
            try:
                os.makedirs(base + "/r")
                for f in ("src", "include", "Makefile"):
                    subprocess.run(["cp", "-a", "/repo/" + f, base + "/r/"], check=True)
                subprocess.run(["git", "init", "-q", base + "/r"], check=True)
                subprocess.run(["git", "-C", base + "/r", "apply", VERIF + "/seeded/%s/patch.diff" % id], check=True)
                props = os.environ.get("PROPS", meta["property"]).split(",")
                for p in props:
                    q = subprocess.run(["python3", VERIF + "/engine/check.py", p], env=dict(os.environ, ISO_REPO=base + "/r"), stdout=subprocess.PIPE, text=True)
                    n = [l for l in q.stdout.splitlines() if "key=" in l]
                    print("%-30s %-4s exit %d  %s" % (id, p, q.returncode, (n or [""])[0][:170]), flush=True)
            finally:
                shutil.rmtree(base)
