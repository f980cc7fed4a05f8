from .cover import *
from .P16 import View

TITLE = "a free releases exactly the chunk it was given, now or by the next flush"
RULE = """(A) Random interpretation of the dataflow states at every return of the deallocation entries: under a drawn heap in which the pointer is a
live chunk, either its bitmap state becomes freed (sealed for a permanent free), its zone's count of live chunks drops by one and no other chunk
changes, or its address is the last write to one entry inside the delayed-free array and the entry count is one past it, keeping what was queued.
(B) Loop coverage of the functions that process delayed frees: every queued entry has an iteration that a heap with a bad pointer in that entry
refutes, the loop cannot stop before it, and the count is zero (or covers only the new entry) afterwards."""
CONFIGS_QUICK = ["default", "release", "tagging", "nomask", "cpp"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"freed at once": 30, "queued": 30, "delayed free visited": 10}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "loop variables advance by the constant step the dataflow found"]
TRIALS = {"quick": 60, "thorough": 600}
FLUSH = {"iso_flush_caches": {}, "iso_free": {"p": 0}, "iso_alloc_destroy_zone": {"zone": 0}, "iso_alloc_destroy": {}}
QSZ = 64


class F(HeapRule):
    traced = True

    def __init__(self, rep, entry, spec, trials, seed):
        self.rep, self.spec, self.trials, self.seed = rep, spec, trials, seed

    def backedge(self, I, s, n):
        pass

    def v(self, I, key, msg, h):
        self.rep.violation("%s:%s" % (key, I.entry), "%s %s" % (I.entry, msg), I.loc(), I.where(), describe(h))

    def final(self, I, st, what, value):
        rep, spec = self.rep, self.spec
        rep.site("return of a free", I.entry)
        if "p" not in spec or spec["p"] == 9:
            return
        r = rng_for(self.seed, I.entry, what)
        hits = 0
        for t in range(self.trials * 2):
            h = free_heap(I.mod, r, spec, "good")
            z, n = h.target
            z.live = r.choice([2, 7, 20])
            z.allocs = r.choice([1, z.count])
            q = h.qcount = r.choice([0, 0, 1, 5, 62, 63, 64])
            y = r.choice(h.zones)
            k = r.randrange(y.slots)
            if (y, k) != (z, n):
                h.bitover[(y.i, k)] = 1
                h.qval = h.chunk(y, k)
            p = h.chunk(z, n)
            tr = Trial(h)
            tr.propagate(st)
            if not tr.alive(st):
                continue
            m = View(tr, st, I)
            ef = Effects(tr, I.trace)
            ch, other = bitmap_changes(tr, st, I)
            mine = [w for (x, j, o, w) in ch if x is z and j == n]
            rest = [(x, j, o, w) for (x, j, o, w) in ch if not (x is z and j == n)]
            count = m.get(ROOT, "chunk_quarantine_count", h.R0)
            put = [j for j in range(-1, QSZ + 3) if ef.last(h.Q + 8 * j, 8)[0] == p]
            if not mine and not put:
                if other:
                    rep.count("not followed")
                    continue
                self.v(I, "lost", "returns without freeing the chunk or queueing it", h)
                return
            if mine and put:
                self.v(I, "twice", "frees the chunk and also queues it", h)
                return
            if mine:
                want = 3 if "perm" in spec else 2
                if mine != [want]:
                    self.v(I, "state", "leaves a %sfreed chunk in state %d" % ("permanently " if "perm" in spec else "", mine[0]), h)
                    return
                if rest and not q:
                    self.v(I, "others", "also changes chunk %d of zone %d: %d -> %d" % (rest[0][1], rest[0][0].i, rest[0][2], rest[0][3]), h)
                    return
                live = m.get(ZT, "af_count", z.addr)
                if live is not None and live != z.live - 1:
                    self.v(I, "count", "frees a chunk of a zone with %d live ones and records %d" % (z.live, live), h)
                    return
                for x in h.zones:
                    if x is not z and m.get(ZT, "af_count", x.addr) not in (None, x.live):
                        self.v(I, "count", "changes the count of live chunks of another zone", h)
                        return
                if count not in (None, q, 0):
                    self.v(I, "count", "changes the number of delayed frees from %d to %d" % (q, count), h)
                    return
                rep.count("freed at once")
            else:
                j = put[0]
                if len(put) > 1:
                    self.v(I, "twice", "queues the chunk %d times" % len(put), h)
                    return
                if j < 0 or j >= QSZ:
                    self.v(I, "overrun", "writes entry %d of the array of delayed frees, which has %d" % (j, QSZ), h)
                    return
                if count is not None and count != j + 1:
                    self.v(I, "queue", "queues the chunk as entry %d of %d and leaves the count at %d" % (j, q, count), h)
                    return
                if j != q and q < QSZ and not (j == 0 and any(e.kind in ("store", "memset") and a == h.Q for e, a, n_ in ef.ev) and self.flushed(I, st)):
                    self.v(I, "queue", "queues the chunk as entry %d when %d were queued" % (j, q), h)
                    return
                if rest and q < QSZ:
                    self.v(I, "others", "queues a chunk and changes chunk %d of zone %d: %d -> %d" % (rest[0][1], rest[0][0].i, rest[0][2], rest[0][3]), h)
                    return
                rep.count("queued")
            hits += 1
            if hits > 60:
                return

    def flushed(self, I, st):
        return ("R", "bitmap") in {c[0] for c in st.mem} or ("R", "bitmap") in st.ver


class G(Rule):
    traced = True

    def __init__(self, rep, entry, seed):
        self.rep, self.seed, self.ret = rep, seed, 0

    def event(self, I, st, ev):
        if ev.kind != "ret" or I.entry != "iso_flush_caches":
            return
        r = rng_for(self.seed, I.entry, "count")
        for t in range(20):
            h = Heap(I.mod, r, nz=2)
            h.target = (h.zones[0], 0)
            h.qcount = r.choice([0, 1, 5, 63, 64])
            tr = Trial(h)
            tr.propagate(st)
            if not tr.alive(st):
                continue
            c = View(tr, st, I).get(ROOT, "chunk_quarantine_count", h.R0)
            if c is not None and c and ROOT + ".chunk_quarantine_count" in {I.mod.clsname(k[0]) for k in st.mem if k[0][0] == "F"} | {""}:
                self.rep.violation("kept:%s" % I.entry, "%s leaves %d delayed frees queued that it carried out" % (I.entry, c), I.loc(), I.where(), "")
                return
            if c and h.qcount and ROOT + ".chunk_quarantine_count" not in {I.mod.clsname(k[0]) for k in st.mem if k[0][0] == "F"}:
                self.rep.violation("kept:%s" % I.entry, "%s leaves the %d delayed frees queued" % (I.entry, c), I.loc(), I.where(), "")
                return
            self.rep.count("queue empty after a flush")


def visit(cv, mk, k, addr, r):
    """the iteration that processes entry k: the values of the counters of a loop under which the end of an iteration is possible when the
    entry is a live chunk and impossible when it is a bad one"""
    for e in cv.backs:
        if e.nest != (e.loop,):
            continue
        ls = [x for x in cv.leaves_of(e) if x.step and x.init is not None and (x.args[1], x.args[2]) == e.loop]
        tr = Trial(mk(False))
        for x in ls:
            if tr.ev(x.init) is None:
                continue
            for c in cv.reach(tr, x, [k, k + 1, 8 * k, addr]) + cv.reach(tr, x, [tr.ev(x.init) + x.step * k]):
                n = (c - tr.ev(x.init)) // x.step
                vals = {y: (tr.ev(y.init) + n * y.step) & ((1 << y.w) - 1) for y in ls if tr.ev(y.init) is not None}
                if possible(mk, False, e, vals, r, 6) and not possible(mk, True, e, vals, r, 24):
                    return e, {x: c}
    return None


def possible(mk, bad, e, vals, r, tries):
    for t in range(tries):
        h = mk(bad)
        h.salt = r.getrandbits(60)
        h.over = dict(vals)
        tr = Trial(h)
        tr.propagate(e.s)
        if tr.alive(e.s) or tr.repair(e.s, r, rounds=2):
            return True
    return False


def cover(m, e, rep, tier, seed):
    I = Interp(m, G(rep, e, seed))
    I.run(e)
    rep.functions |= I.stats["functions"]
    cv = Cover(I)
    r = rng_for(seed, e, "cover")
    found = []
    for t in range({"quick": 30, "thorough": 200}[tier]):
        hs = r.getrandbits(60)
        rr = random.Random(hs)
        q = QSZ if e == "iso_free" else rr.choice([1, 2, 5, 63, 64])
        k = rr.choice([0, q - 1, q // 2])
        bits = rr.choice([0, 2, 3])

        def mk(bad, hs=hs, q=q, k=k, bits=bits):
            rr = random.Random(hs + 1)
            h = Heap(m, rr, nz=rr.choice([2, 3]))
            z = h.zones[-1]
            n = rr.randrange(z.slots)
            h.tk = z.i
            h.target = (z, n)
            h.bitover[(z.i, n)] = 1
            z.live, z.allocs, z.internal, z.tagged = 5, 1, 1, 0
            h.qcount, h.qval = q, h.chunk(z, n)
            if "p" in FLUSH[e]:
                h.args[FLUSH[e]["p"]] = h.qval
            if "zone" in FLUSH[e]:
                y = h.zones[0]
                y.internal = 0
                y.tagged = 1 if h.tagging else 0
                h.args[FLUSH[e]["zone"]] = y.addr ^ h.handle_mask
            if bad:
                o = (n + 1) % z.slots
                h.bitover[(z.i, o)] = bits
                h.qat = {k: h.chunk(z, o)}
            return h
        h = mk(True)
        found.append((visit(cv, mk, k, h.Q + 8 * k, r), mk, h, k, q))
    rep.count("delayed free visited", sum(1 for f in found if f[0]))
    if not any(f[0] for f in found):
        rep.violation("nocheck:%s" % e, "%s has no loop that frees the delayed frees" % e, e)
        return
    for v, mk, h, k, q in found:
        if v is None:
            rep.violation("skipped:%s" % e, "%s never processes entry %d of %d delayed frees" % (e, k, q), e, "", "")
            return
        x = cv.early_exit(mk, v[0], v[1], r)
        if x:
            rep.violation("early:%s" % e, "%s can stop before it processes entry %d of %d delayed frees (loop variable at %d)" % (e, k, q, x[2]), x[0].loc, "", "")
            return


def units(m, tier):
    return split([e for e in m.entries() if e in FREES and FREES[e]["p"] != 9], 4) + [["+" + e] for e in m.entries() if e in FLUSH]


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e.startswith("+"):
            if e[1:] in m.funcs:
                cover(m, e[1:], rep, tier, seed)
            continue
        if e not in m.funcs:
            continue
        I = Interp(m, F(rep, e, FREES[e], TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
