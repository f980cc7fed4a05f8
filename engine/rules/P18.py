from .heap import *
from .P16 import covered, up

TITLE = "large allocations are mapped apart from their records and given back whole"
RULE = """Random interpretation of the dataflow states at every return of the entries that allocate or free a large block, with the recorded mapping and
protection calls.  New block: the pointer is the start of a fresh read-write mapping that holds the request and the recorded size, its record lies
inside another mapping, and guard pages are inaccessible where the build asks for them.  Reused block: read-write over its whole length.  Free: kept
for reuse - contents dropped over the whole length and made inaccessible where the build says so; permanent - block and record page inaccessible;
otherwise block, guards and record page unmapped.  Nothing else is unmapped or protected."""
CONFIGS_QUICK = ["default", "release", "nomask", "bigguards", "protectfree", "cpp"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"new block": 10, "reused block": 4, "kept for reuse": 4, "permanent": 2, "unmapped": 4}
ASSUMPTIONS = ["heap invariants of the drawn heaps (both lists well formed, records distinct)", "mmap returns fresh page aligned addresses; mprotect succeeds"]
TRIALS = {"quick": 60, "thorough": 400}
FREE = {"iso_free_permanently": {"p": 0, "perm": 1}, "iso_free_size": {"p": 0, "size": 1}, "iso_flush_caches": {"p": 9}, "iso_free": {"p": 9},
        "_ZdlPvm": {"p": 0, "size": 1}}


def macro(I, n):
    v = I.mod.macros.get(n, 0)
    return bool(v) and v != "0"


class Base(HeapRule):
    traced = True

    def __init__(self, rep, entry, spec, trials, seed):
        self.rep, self.spec, self.trials, self.seed = rep, spec, trials, seed

    def v(self, I, key, msg, h, b=None):
        self.rep.violation("%s:%s" % (key, I.entry), "%s %s" % (I.entry, msg), I.loc(), I.where(),
                           "block 0x%x of %d bytes, record 0x%x; %d in use, %d free" % (b.U, b.size, b.addr, len(h.used), len(h.free)) if b else
                           "%d in use, %d free" % (len(h.used), len(h.free)))
        return True


def spans(tr, ef, fn):
    return [(x[0], x[0] + up(x[1]), x[2] if len(x) > 2 else None, e) for e, x in ef.calls(fn) if x[0] is not None and x[1] is not None]


class A(Base):
    def backedge(self, I, s, n):
        pass

    def final(self, I, st, what, value):
        if value is None:
            return
        rep = self.rep
        rep.site("return of an allocation", I.entry)
        r = rng_for(self.seed, I.entry, what)
        hits = 0
        guard, mguard = macro(I, "BIG_ZONE_GUARD"), macro(I, "BIG_ZONE_META_DATA_GUARD")
        for t in range(self.trials * 2):
            h = Heap(I.mod, r, nz=1, nb=r.choice([1, 2]))
            h.target = (h.zones[0], 0)
            n = r.choice([65537, 70000, 200000, 1 << 21, (1 << 32) - 4096])
            if h.free and r.random() < .7:
                n = max(65537, r.choice(h.free).size - r.choice([0, 1, 4095, 4096, 8192]))
            elif r.random() < .5:
                h.free = []
            h.args[self.spec["size"]] = n
            if "n" in self.spec:
                h.args[self.spec["n"]] = 1
            tr = Trial(h)
            tr.propagate(st)
            if not tr.alive(st):
                continue
            v = tr.ev(value)
            c = classify(h, v)
            ef = Effects(tr, I.trace)
            prot, unm = spans(tr, ef, "mprotect"), spans(tr, ef, "munmap")
            if c[0] == "big" and c[1] in h.free:
                b = c[1]
                last = {}
                for lo, hi, pr, e in prot:
                    for pg in (b.U, b.U + b.size // 2 & ~(PAGE - 1), b.U + b.size - PAGE):
                        if lo <= pg < hi:
                            last[pg] = pr
                if macro(I, "PROTECT_FREE_BIG_ZONES") and len(last) < 3 or any(p != 3 for p in last.values()):
                    if self.v(I, "reuse", "returns a reused large block without making all of it accessible", h, b):
                        return
                if any(lo < b.U + b.size and b.U < hi for lo, hi, x, e in unm):
                    self.v(I, "reuse", "unmaps part of the block it returns", h, b)
                    return
                rep.count("reused block")
                continue
            if c[0] != "fresh":
                continue
            maps = [(tr.ev(e.ret), up(x[1]), x[2], e) for e, x in ef.calls("mmap", "mmap64") if e.ret is not None]
            mine = [x for x in maps if x[0] is not None and x[0] <= v < x[0] + x[1]]
            if not mine:
                rep.count("not followed")
                continue
            M, ln, pr, ev = mine[-1]
            if pr != 3 or v % PAGE or v + n > M + ln:
                self.v(I, "block", "returns a block of %d bytes inside a mapping of %d that does not hold it or is not read-write" % (n, ln), h)
                return
            rec = self.records(tr, st, I, v)
            if not rec:
                self.v(I, "record", "returns a new large block that no record describes", h)
                return
            a, size = rec[0]
            own = [x for x in maps if x[0] is not None and x[0] <= a and a + I.mod.structs[BT]["size"] <= x[0] + x[1]]
            if not own:
                self.v(I, "record", "places the record of a new large block partly outside its mapping", h)
                return
            if own[-1][3] is ev:
                self.v(I, "apart", "places the record of a new large block in the same mapping as the block", h)
                return
            if size is not None and (size < n or v + size > M + ln):
                self.v(I, "size", "records %d bytes for a block of %d bytes in a mapping of %d" % (size, n, ln), h)
                return
            for on, lo, hi, (base, length) , who in ((guard, v, v + up(n), (M, ln), "block"), (mguard, a & ~(PAGE - 1), (a & ~(PAGE - 1)) + PAGE, own[-1][:2], "record")):
                if any(x < hi and lo < y and p != 3 and ef.certain(e) for x, y, p, e in prot):
                    self.v(I, "protected", "makes part of the new %s inaccessible" % who, h)
                    return
                if not on:
                    continue
                for pg, side in ((lo - PAGE, "below"), (hi, "above")):
                    if pg < base or pg + PAGE > base + length or not any(x <= pg and pg + PAGE <= y and p == 0 for x, y, p, e in prot):
                        self.v(I, "guard-%s" % who, "leaves no inaccessible page %s the new large block's %s" % (side, "pages" if who == "block" else who), h)
                        return
            rep.count("new block")
            hits += 1
            if hits > 40:
                return

    def records(self, tr, st, I, v):
        r, size = [], {}
        for (cls, base, idx), x in st.mem.items():
            if cls[0] == "F" and base is not None and hasattr(base, "op"):
                f = I.mod.clsname(cls)
                if f == BT + ".user_pages_start" and tr.ev(x) == v:
                    r.append(tr.ev(base))
                elif f == BT + ".size":
                    size[tr.ev(base)] = tr.ev(x)
        return [(a, size.get(a)) for a in r if a is not None]


class F(Base):
    def backedge(self, I, s, n):
        if self.spec["p"] == 9 and any(c[0][0] == "F" and I.mod.clsname(c[0]) in BIGMETA for c in s.mem):
            self.final(I, s, "loop", None)

    def final(self, I, st, what, value):
        rep = self.rep
        if self.spec["p"] == 9 and what != "loop":
            return
        r = rng_for(self.seed, I.entry, what)
        guard, mguard = macro(I, "BIG_ZONE_GUARD"), macro(I, "BIG_ZONE_META_DATA_GUARD")
        g, mg = PAGE if guard else 0, PAGE if mguard else 0
        for t in range(self.trials):
            h = Heap(I.mod, r, nz=1, nb=r.choice([1, 2]))
            h.target = (h.zones[0], 0)
            b = r.choice(h.used)
            if r.random() < .4:
                b.addr &= ~(PAGE - 1)
            b.ttl = r.choice([0, 3, 15, 16, 17, 1000])
            h.args[self.spec["p"]] = b.U
            h.qval = b.U
            h.qcount = 64
            if "size" in self.spec:
                h.args[self.spec["size"]] = r.choice([b.size, b.size - 1, 65537])
            tr = Trial(h)
            tr.propagate(st)
            if not tr.alive(st):
                continue
            ef = Effects(tr, I.trace)
            prot, unm = spans(tr, ef, "mprotect"), spans(tr, ef, "munmap")
            dropped = [x for x in spans(tr, ef, "madvise") if x[2] in (4, 8)]
            rec = b.addr & ~(PAGE - 1)
            allowed = [(b.U - g, b.U + b.size + g), (rec - mg, rec + PAGE + mg)]
            if macro(I, "FUZZ_MODE"):
                continue
            for what_, l in (("unmaps", unm), ("protects", [x for x in prot if x[2] != 3])):
                for lo, hi, x, e in l:
                    if ef.certain(e) and not h.is_fresh(lo) and not any(a <= lo and hi <= z for a, z in allowed) and not self.zone(h, lo, hi):
                        self.v(I, "other", "%s %d bytes at 0x%x, which are neither the freed block nor its record's page" % (what_, hi - lo, lo), h, b)
                        return
            for lo, hi, x, e in unm:
                if lo % PAGE and not self.zone(h, lo, hi) and ef.certain(e):
                    self.v(I, "unaligned", "passes munmap an address that is not at a page boundary: the page is never unmapped", h, b)
                    return
            head = [tr.ev(v) for (cls, base, idx), v in st.mem.items() if cls[0] == "F" and I.mod.clsname(cls) == ROOT + ".big_zone_free"]
            kept = head and head[0] == b.addr ^ h.next_mask
            whole = lambda l: covered([(lo, hi) for lo, hi, x, e in l], b.U, b.U + b.size) if b.size < 1 << 22 else \
                any(lo <= b.U and b.U + b.size <= hi for lo, hi, x, e in l)
            none = [x for x in prot if x[2] == 0]
            if kept:
                if not whole(dropped):
                    self.v(I, "dropped", "keeps a freed large block for reuse without dropping all of its contents", h, b)
                    return
                if macro(I, "PROTECT_FREE_BIG_ZONES") and not whole(none):
                    self.v(I, "protect", "keeps a freed large block for reuse without making all of it inaccessible", h, b)
                    return
                if unm and any(lo < b.U + b.size and b.U < hi and ef.certain(e) for lo, hi, x, e in unm):
                    self.v(I, "kept", "keeps a freed large block for reuse that it unmaps", h, b)
                    return
                rep.count("kept for reuse")
            elif "perm" in self.spec:
                if not whole(none) and not whole(unm):
                    self.v(I, "permanent", "leaves a permanently freed large block accessible", h, b)
                    return
                if not covered([(lo, hi) for lo, hi, x, e in none + unm], rec, rec + PAGE):
                    self.v(I, "permanent-record", "leaves the record of a permanently freed large block accessible", h, b)
                    return
                rep.count("permanent")
            else:
                if what == "loop" and not whole(unm):
                    rep.count("nothing released")     # an iteration that freed something else
                    continue
                if not covered([(lo, hi) for lo, hi, x, e in unm], b.U - g, b.U + b.size + g) if b.size < 1 << 22 else \
                        not any(lo <= b.U - g and b.U + b.size + g <= hi for lo, hi, x, e in unm):
                    self.v(I, "unmap", "releases a large block without unmapping all of it", h, b)
                    return
                if not covered([(lo, hi) for lo, hi, x, e in unm], rec - mg, rec + PAGE + mg):
                    self.v(I, "unmap-record", "releases a large block without unmapping the page of its record", h, b)
                    return
                rep.count("unmapped")

    def zone(self, h, lo, hi):
        """pages of a zone or its bitmap: another property"""
        return any(z.U - (1 << 20) <= lo < z.U + ZONE + PAGE or z.B - PAGE <= lo <= z.B + (1 << 20) for z in h.zones)


def units(m, tier):
    return split([e for e in m.entries() if e in FREE or e in ALLOCS and "size" in ALLOCS[e]], 5)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, F(rep, e, FREE[e], TRIALS[tier] * 2, seed) if e in FREE else A(rep, e, ALLOCS[e], TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
