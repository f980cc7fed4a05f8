from .heap import *

TITLE = "realloc keeps the contents, gives back the old block, and is harmless on failure"
RULE = """Random interpretation of the dataflow states at every return of the realloc entries together with the recorded memory effects, under heaps
in which the pointer passed is a live chunk or a used large allocation: bytes 0 .. min(old usable size, new size) - 1 of the block returned must
last be written by a copy of the same byte of the old block, with no earlier effect on that byte of the old block; the block returned is big
enough; the old block is released on success and untouched when NULL is returned for a non-zero size."""
CONFIGS_QUICK = ["default", "release", "sanitize", "permrealloc", "libc", "cpp"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"byte preserved": 200, "failed": 5, "released": 20}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)"]
TRIALS = {"quick": 300, "thorough": 1200}
E1 = {"p": 0, "size": 1}
E2 = {"p": 0, "n": 1, "size": 2}
ENTRIES = {"iso_realloc": E1, "realloc": E1, "__libc_realloc": E1, "libc_realloc": E1,
           "iso_reallocarray": E2, "reallocarray": E2, "__libc_reallocarray": E2}
UNMAP = ("munmap", "madvise", "mprotect")


def make(mod, r, spec):
    h = Heap(mod, r, nz=r.choice([1, 2, 3, 4]))
    if r.random() < .4:
        h.free = []
    z = r.choice(h.zones)
    h.tk = z.i
    for y in h.zones:
        y.full = 0
        y.live = max(3, y.live)           # never the last chunk: the zone is not retired
    old = r.choice(["zone", "zone", "zone", "big", "big", "null"])
    if old == "big" and not h.used:
        old = "null"
    n = r.choice([0, 1, 31, 32, z.slots - 1, r.randrange(z.slots)]) % z.slots
    h.target = (z, n)
    h.bitover[(z.i, n)] = 1
    p, have, b = 0, 0, None
    if old == "zone":
        p, have = h.chunk(z, n), z.C
    elif old == "big":
        b = r.choice(h.used)
        p, have = b.U, b.size
    z2 = r.choice(h.zones)
    m = r.choice([m for m in [r.randrange(z2.slots), r.randrange(z2.slots), n + 1, n - 1] if 0 <= m < z2.slots and (z2 is not z or m != n)] or [-1])
    h.focus = [z.i]
    if m >= 0:
        h.target = (z2, m)
        h.tk = z2.i
        h.bitover[(z2.i, m)] = 0 if z2.C < 16384 else h.bits(z2, m)
        h.focus = [z.i, z2.i]
        if r.random() < .7:
            z2.internal = 1
        need = r.choice([1, z2.C, z2.C - 1, z2.C, z2.C // 2])
    if b:
        h.focus_big = b.addr
        h.exits = r.choice([8, 14, 14])
    if b and r.random() < .8:
        need = r.choice([65537, 70000, have - 1, have, have + 1, have * 2, have // 2 + 65536, 1 << 20])
        h.exits = r.choice([14, 15, 16])
    elif len(h.focus) == 1 or r.random() < .5:
        need = r.choice([1, 16, 31, 32, 33, 64, 100, 1024, 1025, 8192, 65536, 65537, 100000, have, have - 1, have + 1, have // 2, have * 2, 1 << 20,
                         (1 << 32) + 1, 1 << 40, (1 << 64) - 3])
    need = max(1, need)
    if p and r.random() < .06:
        need = 0
    h.args[spec["p"]] = p
    h.args[spec["size"]] = need
    if "n" in spec:
        k = r.choice([1, 1, 2, 3])
        h.args[spec["n"]] = k
        h.args[spec["size"]] = max(min(1, need), need // k)
        need = max(min(1, need), need // k) * k
    h.qval = 0
    return h, p, have, need, b, (z, n)


class R(HeapRule):
    traced = True

    def __init__(self, rep, entry, spec, trials, seed):
        self.rep, self.spec, self.trials, self.seed = rep, spec, trials, seed

    def backedge(self, I, s, n):
        pass

    def v(self, I, key, msg, h, where=None):
        self.rep.violation("%s:%s" % (key, I.entry), "%s %s" % (I.entry, msg), where or I.loc(), I.where(), describe(h))

    def final(self, I, st, what, value):
        if value is None:
            return
        rep = self.rep
        rep.site("return of a resized allocation", I.entry)
        r = rng_for(self.seed, I.entry, what)
        for t in range(self.trials):
            h, p, have, need, b, (z, n) = make(I.mod, r, self.spec)
            tr = Trial(h)
            tr.propagate(st)
            tr.use_bounds(st)
            if not tr.alive(st):
                continue
            q = tr.ev(value)
            c = classify(h, q)
            k = c[0]
            rep.count("result " + k)
            if q is None or k in ("unknown", "zero"):
                continue
            if q == p and p:
                continue                      # resized in place
            ef = Effects(tr, I.trace, loops=True)
            gone = p and self.released(h, ef, p, b, z, n, tr, st, I)
            if k == "null":
                if not need:
                    rep.count("freed by size 0")
                    if not gone:
                        return self.v(I, "zero", "does not release the block when asked for size 0", h)
                    continue
                rep.count("failed")
                if p and (gone or any(e.kind != "call" and a is not None and m is not None and a < p + have and p < a + m and ef.certain(e)
                                      for e, a, m in ef.ev)):
                    return self.v(I, "failed", "returns NULL for a %d byte request but releases or modifies the old block" % need, h)
                continue
            if k == "other":
                continue
            room = c[1].C - c[2] % c[1].C if k == "zone" else c[1].size - c[2] if k == "big" else None
            if room is not None and room < need:
                return self.v(I, "small", "returns a block of %d bytes for a request of %d" % (room, need), h)
            if not p or not need or k == "zone" and c[1] is z and c[2] // z.C == n:
                continue
            rep.count("moved " + ("large" if b else "chunk"))
            if not gone:
                return self.v(I, "leak", "moves the block without releasing the old one", h)
            rep.count("released")
            m = min(need, have)
            for o in {0, m - 1, m // 2, min(m - 1, 7), min(m - 1, 8), max(0, m - 8), max(0, m - 9), r.randrange(m)}:
                x = ef.content(q + o)
                if x is None or x[:2] != ("copy", p + o):
                    d = "nothing is written there" if x is None else "last written at %s (%s)" % (x[2].loc, x[0])
                    return self.v(I, "content", "does not preserve byte %d (old block %d bytes, new size %d): %s" % (o, have, need, d), h)
                for e, a, s in ef.ev:
                    if e is x[2]:
                        break
                    if e.kind == "call":
                        if e.fn in UNMAP and e.args and ef.certain(e):
                            a, s = tr.ev(e.args[0]), tr.ev(e.args[1])
                    if a is not None and s is not None and a <= p + o < a + s and ef.certain(e) and e.kind in ("store", "memset", "memcpy", "call"):
                        if e.kind == "store" and tr.ev(e.value) is not None and srcaddr(tr, e.value) == p + o:
                            continue
                        return self.v(I, "stale", "overwrites or unmaps byte %d of the old block before it is copied" % o, h, e.loc)
                rep.count("byte preserved")

    def released(self, h, ef, p, b, z, n, tr, st, I):
        for e, a, s in ef.ev:
            if e.kind == "store" and a is not None and h.Q <= a < h.Q + 8 * 64 and ef.tr.ev(e.value) == p:
                return True
            if b is not None:
                if e.kind == "store" and a is not None and b.addr <= a < b.addr + 64 and ef.certain(e):
                    return True
                if e.kind == "call" and e.fn in UNMAP and ef.tr.ev(e.args[0]) in (b.U, b.U - PAGE):
                    return True
        if b is None:
            ch, other = bitmap_changes(tr, st, I)
            return any(y is z and m == n and w & 2 for (y, m, o, w) in ch)
        return False


def units(m, tier):
    return split([e for e in m.entries() if e in ENTRIES], 6)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, e, ENTRIES[e], TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
