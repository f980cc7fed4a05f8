"""Helpers shared by the property modules."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import terms as tm
from terms import *
from interp import Rule, Interp, Event, Module, STABLE

ALL = ["default", "release", "cpp", "cpp-release", "tagging", "sanitize", "nothreads", "spinlock", "smallmem", "prepop", "profiler",
       "sanity", "uninit", "strongiso", "uafsig", "verifyslots", "experimental", "abortnull", "bigguards", "nomask", "named", "init",
       "libc", "permrealloc", "zeroallocs", "protectfree", "cpupin", "nocanary", "cpp-abortnull"]

# rough cost order of entries, so that units balance
HEAVY = ("realloc", "destroy", "calloc", "alloc", "dup", "free", "new", "del")


def split(names, k):
    """k balanced groups"""
    def w(n):
        for i, h in enumerate(HEAVY):
            if h in n:
                return (i, n)
        return (len(HEAVY), n)
    names = sorted(names, key=w)
    k = max(1, min(k, len(names)))
    return [names[i::k] for i in range(k)]


def locks_of(mod):
    """the library's locks, by the names the interpreter gives them"""
    thr = mod.macros.get("THREAD_SUPPORT", 1) != 0
    spin = mod.macros.get("USE_SPINLOCK", 0) == 1
    if not thr:
        return None
    if spin:
        return {"root": "root_busy_flag", "bigfree": "iso_alloc_root.big_zone_free_flag",
                "bigused": "iso_alloc_root.big_zone_used_flag", "sane": "sane_cache_flag"}
    return {"root": "root_busy_mutex", "bigfree": "iso_alloc_root.big_zone_free_mutex",
            "bigused": "iso_alloc_root.big_zone_used_mutex", "sane": "sane_cache_mutex"}


def site(I):
    return "%s@%s" % (I.stack[-1][0], I.loc())


def fn_here(I):
    return I.stack[-1][0]
