from .common import *

TITLE = "shared allocator state is only touched under the lock that guards it"
RULE = """Lockset dataflow over every entry point: each store to (and, for mutable members, each load from) a member of the root,
a zone, a big zone, the sanity tables, the bitmap pages, the lookup table or the quarantine must happen with the guarding lock in
the set of held locks (table GUARDS).  Objects freshly mapped by the same call, thread-local caches, members that are immutable
once the root is initialised, and the single-threaded constructor/initialise/teardown entries are exempt."""
CONFIGS_QUICK = ["default", "release", "sanity", "tagging", "profiler", "spinlock", "abortnull", "experimental"]
CONFIGS_THOROUGH = [c for c in ALL if c != "nothreads"]
MIN_SITES = {"guarded store": 60, "guarded load": 60}
ASSUMPTIONS = ["members in the immutable list are written only before a zone/root is published (checked: stores still need the lock)",
               "the memcpy/memset sanity hooks read the lookup table without a lock by documented design"]

ZONE_MUT = ["next_free_bit_slot", "free_bit_slots", "af_count", "alloc_count", "next_sz_index", "free_bit_slots_index",
            "free_bit_slots_usable", "is_full"]
ZONE_IMM = ["user_pages_start", "bitmap_start", "canary_secret", "pointer_mask", "max_bitmap_idx", "chunk_size", "bitmap_size",
            "chunk_count", "index", "preallocated_bitmap_idx", "cpu_core", "internal", "tagged"]
ROOT_MUT = ["zone_lookup_table", "bitmaps", "seed", "chunk_quarantine_count", "zones_used"]
ROOT_IMM = ["zones", "chunk_lookup_table", "chunk_quarantine", "zero_alloc_page", "uaf_ptr_page", "zone_handle_mask",
            "big_zone_next_mask", "big_zone_canary_secret", "zones_size", "zone_retirement_shf"]
SINGLE = {"iso_alloc_initialize", "iso_alloc_ctor", "iso_alloc_dtor", "handle_signal", "iso_cpp", "iso_cpp_handler", "_page_fault_thread_handler",
          "_get_root", "iso_alloc_unprotect_root"}

PROFILER = ("_alloc_count", "_free_count", "_alloc_sampled_count", "_free_sampled_count", "_zone_profiler_map", "_alloc_bts",
            "_alloc_bts_count", "_free_bts", "_free_bts_count")


def table(m):
    g = {}

    def put(S, n, lock, rd):
        c = m.fcls(S, n)
        if c:
            g[c] = (lock, rd)
    for n in ZONE_MUT:
        put("iso_alloc_zone_t", n, ("root",), True)
    for n in ZONE_IMM:
        put("iso_alloc_zone_t", n, ("root",), False)
    for n in ROOT_MUT:
        put("iso_alloc_root", n, ("root",), n != "zones_used")
    for n in ROOT_IMM:
        put("iso_alloc_root", n, ("root",), False)
    put("iso_alloc_root", "big_zone_free", ("bigfree",), True)
    put("iso_alloc_root", "big_zone_free_count", ("bigfree",), True)
    put("iso_alloc_root", "big_zone_used", ("bigused",), True)
    put("iso_alloc_root", "big_zone_used_count", ("bigused",), True)
    put("iso_alloc_big_zone_t", "next", ("bigfree", "bigused"), True)
    put("iso_alloc_bitmap_t", "in_use", ("root",), True)
    put("iso_alloc_bitmap_t", "bitmap", ("root",), False)
    put("iso_alloc_bitmap_t", "bucket", ("root",), False)
    g[("R", "bitmap")] = (("root",), True)
    g[("R", "p:chunk_lookup_table")] = (("root",), False)
    g[("R", "p:chunk_quarantine")] = (("root",), True)
    for n in ("_sane_cache", "_sane_allocations", "_sane_sampled"):
        g[("G", n)] = (("sane",), n != "_sane_sampled")
    for n in PROFILER:
        if n in m.globals:
            g[("G", n)] = (("root",), True)
    for S in ("iso_alloc_traces_t", "iso_free_traces_t"):
        for i in range(len(m.structs.get(S, {"fields": ()})["fields"])):
            g[("F", S, i)] = (("root",), True)
    s = m.structs.get("_sane_allocation_t")
    if s:
        for i in range(len(s["fields"])):
            g[("F", "_sane_allocation_t", i)] = (("sane",), True)
    return g


class R(Rule):
    init = None

    def __init__(self, rep, m):
        self.rep = rep
        self.g = table(m)
        self.locks = locks_of(m)
        self.seen = set()

    def check(self, I, st, addr, kind):
        if addr.op == "ite":
            self.check(I, st, addr.args[1], kind)
            self.check(I, st, addr.args[2], kind)
            return
        cls, base, idx = I.resolve(addr)
        if cls[0] == "F" and base is not None:
            # an array element inside a structure is classified by its member
            b = base
            if cls not in self.g and b.op in ("fld", "lin"):
                c2 = I.resolve(b)[0]
                if c2 in self.g:
                    cls = c2
        r = self.g.get(cls)
        if r is None:
            return
        locks, rd = r
        if kind == "load" and not rd:
            return
        b = base
        while b is not None and b.op == "fld":
            b = b.args[0]
        if b is not None and I.fresh(b) is not None:
            return
        self.rep.site("guarded " + kind, "%s %s" % (site(I), I.mod.clsname(cls)))
        if any(self.locks[l] in st.held for l in locks):
            return
        name = I.mod.clsname(cls)
        f = fn_here(I)
        if len(I.stack) > 1 and f.startswith("us_rand"):
            f += "<" + I.stack[-2][0]
        self.rep.violation("%s:%s:%s" % (kind, f, name),
                           "%s of %s without holding %s" % (kind, name, " or ".join(self.locks[l] for l in locks)), I.loc(), I.where())

    def event(self, I, st, ev):
        if ev.kind == "load" or ev.kind == "store":
            self.check(I, st, ev.addr, ev.kind)
        elif ev.kind in ("memset", "memcpy"):
            if not is_c(ev.addr):
                self.check(I, st, ev.addr, "store")


def units(m, tier):
    return split([e for e in m.entries() if e not in SINGLE], 2)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, m))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
        rep.count("events", I.stats["events"])
