from .biglist import *

TITLE = "the lists of large allocations stay consistent"
RULE = """Random interpretation of the dataflow states at every release of the two big zone locks (and at returns when there are no locks), with the
loop variables at the values the loop summaries reach from their start values: after a free the used list is exactly what it was without the freed
record, which is on the free list or on none; an allocation moves exactly one record (recycled or new) to the used list; queries change nothing; list
counters equal the list lengths."""
CONFIGS_QUICK = ["default", "release", "nomask", "spinlock", "cpp"]
CONFIGS_THOROUGH = [c for c in ALL if c != "nothreads"]
MIN_COUNTS = {"unlinked from the used list": 10, "linked into the used list": 10}
ASSUMPTIONS = ["heap invariants of the drawn heaps (both lists well formed, records distinct)"]
TRIALS = {"quick": 14, "thorough": 120}
QUERIES = {"iso_chunksz": 0, "malloc_usable_size": 0, "iso_verify_zones": None, "iso_alloc_detect_leaks": None, "iso_alloc_mem_usage": None}
REALLOCS = {"iso_realloc": (0, None, 1), "iso_reallocarray": (0, 1, 2), "realloc": (0, None, 1), "reallocarray": (0, 1, 2), "__libc_realloc": (0, None, 1)}
NOW = {"iso_free_permanently", "iso_free_size"}


class R(Rule):
    traced = True
    weak = {BT + ".next"}
    trace_more = ("unlock", "ret")


class Check(object):
    def __init__(self, I, rep, e, tier, seed):
        self.I, self.rep, self.e = I, rep, e
        self.n = TRIALS[tier]
        self.seed = seed
        self.rng = rng_for(seed, e + ":repair")
        lk = locks_of(I.mod) or {}
        self.lock = {"used": lk.get("bigused"), "free": lk.get("bigfree")}
        self.loops = Loops(I)
        self.evs = [x for x in I.trace if x.kind == "unlock" and x.lock in self.lock.values()]

    def heap(self, r):
        h = Heap(self.I.mod, r, nz=2, nb=r.choice([1, 2, 3]))
        h.target = (h.zones[0], 0)
        return h

    def states(self, h, which):
        """(event, view) of every state that releases the list's lock and is not refuted"""
        for x in self.evs:
            if x.lock != self.lock[which]:
                continue
            h.over = {}
            for v in self.loops.nests(h, x):
                h.over = dict(v)
                old = getattr(h, which)
                view = BigView(Trial(h), x.s, self.I)
                if view.walk(which) == [b.addr for b in old] and view.get(COUNTS[which], h.R0) in (None, len(old)):
                    self.rep.count("list left alone")
                    continue
                # whether the state is possible is only asked for the verdicts that need it
                self.now = (h, x)
                yield x, view
        h.over = {}

    def possible(self):
        h, x = self.now
        save = h.over
        h.over = dict(save)
        r = self.loops.alive(h, x, self.rng) is not None
        h.over = save
        return r

    def bad(self, key, x, msg, h, got=None):
        if x and not self.possible():
            return False
        d = "used list: %s; free list: %s" % ([hex(b.addr) for b in h.used], [hex(b.addr) for b in h.free])
        if got is not None:
            d += "; afterwards: %s" % [hex(a) if isinstance(a, int) else a for a in got]
        self.rep.violation("%s:%s" % (key, self.e), "%s %s" % (self.e, msg), x.loc if x else self.e, "in " + x.fn_here if x else "", d)
        return True

    def same(self, l, got):
        return got is not None and all(isinstance(a, int) for a in got) and sorted(got) == sorted(l)

    def counts(self, x, view, which, got, h):
        c = view.get(COUNTS[which], h.R0)
        if c is not None and c & 0xffffffff != len(got) and (COUNTS[which], h.R0) in view.cells or \
                c is not None and (COUNTS[which], h.R0) not in view.cells and c != len(got):
            self.bad("count-" + which, x, "leaves the counter of the %s list at %d with %d entries on it" % (which, c & 0xffffffff, len(got)), h, got)

    def free(self, spec):
        r = rng_for(self.seed, self.e)
        sized = "size" in spec
        for t in range(self.n):
            h = self.heap(r)
            b = r.choice(h.used)
            h.qval = b.U
            h.qcount = r.choice([1, 64])
            h.args[spec["p"]] = b.U
            if sized:
                h.args[spec["size"]] = r.choice([b.size, b.size - 1, 65537])
            rest = [y.addr for y in h.used if y is not b]
            hit = False
            for x, view in self.states(h, "used"):
                if not view.touched("used"):
                    got = view.walk("used")
                    if not self.same(addrs(h.used), got):
                        if self.bad("used", x, "breaks the list of large allocations in use", h, got):
                            return
                        continue
                    continue
                got = view.walk("used")
                if self.same(addrs(h.used), got):
                    continue
                if not self.same(rest, got):
                    if self.bad("used", x, "does not leave exactly the other large allocations on the used list", h, got):
                        return
                    continue
                self.counts(x, view, "used", got, h)
                hit = hit or self.possible()
            if hit:
                self.rep.count("unlinked from the used list")
            elif self.e in NOW and not self.I.mod.macros.get("ALLOC_SANITY"):
                if self.bad("lost", None, "never takes a freed large allocation off the used list", h):
                    return
                continue
            for x, view in self.states(h, "free"):
                got = view.walk("free")
                if self.same(addrs(h.free), got):
                    continue
                if not self.same(addrs(h.free) + [b.addr], got):
                    if self.bad("free", x, "does not leave the freed records and only those on the free list", h, got):
                        return
                    continue
                if view.get(BT + ".free", b.addr) not in (1, None):
                    if self.bad("flag", x, "puts a record on the free list that is not marked free", h, got):
                        return
                    continue
                self.counts(x, view, "free", got, h)
                self.rep.count("linked into the free list")

    def alloc(self, spec, rea=None):
        r = rng_for(self.seed, self.e)
        for t in range(self.n):
            h = self.heap(r)
            if h.free and r.random() < .8:
                n = r.choice(h.free).size - r.choice([0, 0, 1, 4096])
            else:
                n = r.choice([70000, 200000, 1 << 21])
            allowed = [addrs(h.used)]
            if rea:
                p, k, s = rea
                b = r.choice(h.used)
                h.args[p] = b.U
                if k is not None:
                    h.args[k] = 1
                h.args[s] = n
                h.qval = b.U
                allowed.append([y.addr for y in h.used if y is not b])
            else:
                if "size" in spec:
                    h.args[spec["size"]] = n
                if "n" in spec:
                    h.args[spec["n"]] = 1
            for x, view in self.states(h, "used"):
                got = view.walk("used")
                if any(self.same(l, got) for l in allowed):
                    continue
                extra = [a for a in got or () if isinstance(a, int) and a not in addrs(h.used)]
                if len(extra) != 1 or not self.same(addrs(h.used) + extra, got) or not (h.is_fresh(extra[0]) or extra[0] in addrs(h.free)):
                    if self.bad("used", x, "does not add exactly one recycled or new record to the used list", h, got):
                        return
                    continue
                self.counts(x, view, "used", got, h)
                self.rep.count("linked into the used list")
            for x, view in self.states(h, "free"):
                got = view.walk("free")
                if self.same(addrs(h.free), got) or rea and self.same(addrs(h.free) + [b.addr], got):
                    continue
                gone = [a for a in addrs(h.free) if a not in (got or [])]
                if len(gone) != 1 or not self.same([a for a in addrs(h.free) if a not in gone], got):
                    if self.bad("free", x, "does not remove exactly one record from the free list", h, got):
                        return
                    continue
                if view.get(BT + ".free", gone[0]) not in (0, None):
                    if self.bad("flag", x, "takes a record off the free list without marking it in use", h, got):
                        return
                    continue
                self.counts(x, view, "free", got, h)
                self.rep.count("unlinked from the free list")

    def query(self, arg):
        r = rng_for(self.seed, self.e)
        for t in range(self.n):
            h = self.heap(r)
            if arg is not None:
                h.args[arg] = r.choice(h.used).U
            for which in ("used", "free"):
                for x, view in self.states(h, which):
                    got = view.walk(which)
                    c = view.get(COUNTS[which], h.R0)
                    if not self.same(addrs(getattr(h, which)), got) or c is not None and c & 0xffffffff != len(getattr(h, which)):
                        if self.bad("query-" + which, x, "changes the %s list although it only asks for information" % which, h, got):
                            return
                        continue


def units(m, tier):
    return split([e for e in m.entries() if e in FREES and "zone" not in FREES[e] or e in ALLOCS and "zone" not in ALLOCS[e] or e in QUERIES or e in REALLOCS], 6)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R())
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
        c = Check(I, rep, e, tier, seed)
        for x in c.evs:
            rep.site("release of a list lock", "%s@%s" % (x.fn_here, x.loc))
        if e in FREES:
            c.free(FREES[e])
        elif e in ALLOCS:
            c.alloc(ALLOCS[e])
        elif e in REALLOCS:
            c.alloc({}, REALLOCS[e])
        else:
            c.query(QUERIES[e])
