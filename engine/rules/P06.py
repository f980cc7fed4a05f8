from .heap import *

TITLE = "an allocation returns a chunk nobody else holds, and only that chunk"
RULE = """Random interpretation of the interprocedural dataflow states of every allocation entry: under randomly drawn heaps (including stale
free-slot caches that name chunks in use) the returned pointer of every state the heap does not refute is compared with the allocation bitmaps
before and after: it must be the start of a chunk that was free, that is now marked in use, and no other chunk may change state; a recycled
large allocation must come from the free list and be big enough."""
CONFIGS_QUICK = ["default", "release", "tagging", "nomask", "cpp", "strongiso"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"chunk returned": 100, "recycled large allocation returned": 4}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "a loop is one generic iteration"]
TRIALS = {"quick": 250, "thorough": 1500}


class R(HeapRule):
    def __init__(self, rep, entry, spec, trials, seed):
        self.rep, self.spec, self.trials, self.seed = rep, spec, trials, seed

    def v(self, I, key, msg, h):
        self.rep.violation("%s:%s" % (key, I.entry), "%s %s" % (I.entry, msg), I.loc(), I.where(), describe(h))

    def backedge(self, I, s, n):
        pass

    def final(self, I, st, what, value):
        if value is None:
            return
        rep = self.rep
        rep.site("return of an allocation", I.entry)
        r = rng_for(self.seed, I.entry, what)
        for t in range(self.trials):
            h, want, need = alloc_heap(I.mod, r, self.spec)
            tr = Trial(h)
            tr.propagate(st)
            rep.count("heaps evaluated")
            if not tr.alive(st):
                continue
            p = tr.ev(value)
            c = classify(h, p)
            rep.count("result " + c[0])
            ch, other = bitmap_changes(tr, st, I)
            k = c[0]
            if any(o[0] == "foreign" for o in other):
                self.v(I, "foreign", "writes an allocation bitmap word outside every bitmap", h)
            if k == "zone":
                z, off = c[1], c[2]
                n = off // z.C
                if off % z.C or n >= z.count:
                    self.v(I, "boundary", "returns a pointer that is not at a chunk boundary (offset %d in a zone of %d byte chunks)" % (off, z.C), h)
                    break
                old = h.bits(z, n)
                if old & 1:
                    self.v(I, "inuse", "returns a chunk whose bitmap state is already %d (in use or sealed)" % old, h)
                    break
                new = [w for (y, m, o, w) in ch if y is z and m == n]
                if new != [1]:
                    self.v(I, "notmarked", "returns chunk %d of zone %d without marking it in use (state %d -> %s)" % (n, z.i, old, new or "same"), h)
                    break
                rep.count("chunk returned")
                if len(ch) != 1:
                    self.v(I, "others", "changes the state of other chunks: %s" % ["zone %d chunk %d: %d -> %d" % (y.i, m, o, w) for y, m, o, w in ch[:4]], h)
                    break
            elif k == "big":
                b, off = c[1], c[2]
                if off or b not in h.free:
                    self.v(I, "bigused", "returns a pointer into a large allocation that is in use", h)
                    break
                if b.size < need:
                    self.v(I, "bigsmall", "returns a recycled large allocation of %d bytes for a request of %d" % (b.size, need), h)
                    break
                rep.count("recycled large allocation returned")
            elif k == "other":
                self.v(I, "wild", "returns 0x%x, which is in no zone, large allocation or fresh mapping" % p, h)
                break
            if k in ("null", "zero") and [1 for (y, m, o, w) in ch if w & 1 and not o & 1]:
                self.v(I, "lost", "marks a chunk in use but returns %s" % k, h)
                break


def units(m, tier):
    return split([e for e in m.entries() if e in ALLOCS], 2)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, e, ALLOCS[e], TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
