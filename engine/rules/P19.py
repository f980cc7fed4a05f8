from .heap import *
from . import P16
from .P16 import View

TITLE = "memory tags belong to one chunk, are checked, and change when it is freed"
RULE = """Random interpretation of the dataflow states at every return of the tagging entries and of the entries that allocate from, free to, or create a
private zone in a build with memory tagging.  Tagging a chunk's address adds the tag stored for that chunk and nothing else; removing a tag is its
inverse; a wrong tag, an address inside a chunk or outside the zone refutes every return of the checking entries; after a free the last write to the
chunk's tag is another value; every byte of a new zone's tags is written with random data."""
CONFIGS_QUICK = ["tagging"]
CONFIGS_THOROUGH = ["tagging"]
MIN_COUNTS = {"tag added": 5, "tag removed": 5, "right tag accepted": 5, "wrong tag refuted": 20, "bad address refuted": 20, "tag replaced": 4}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks)", "random numbers are not predictable"]
TRIALS = {"quick": 150, "thorough": 3000}
ENTRIES = {"iso_alloc_tag_ptr": "tag", "iso_alloc_untag_ptr": "untag", "iso_alloc_verify_ptr_tag": "verify", "iso_alloc_get_mem_tag": "get",
           "iso_alloc_from_zone_tagged": "alloc", "iso_free_from_zone": "free", "iso_free_from_zone_permanently": "free", "iso_alloc_new_zone": "new",
           "iso_free": "late", "iso_free_permanently": "late", "iso_free_size": "late", "iso_flush_caches": "late"}
A56 = (1 << 56) - 1


class THeap(Heap):
    """a private zone's tags are consistent: one random byte for every chunk"""
    def tagaddr(self, z, n):
        return z.U - PAGE - z.tagsize + n

    def tag(self, z, n):
        return scen.h64(self.salt, 61, self.tagaddr(z, n)) & 0xff

    def read(self, region, b, w, ver):
        for z in self.zones:
            if z.tagged and z.U - PAGE - z.tagsize <= b < z.U - PAGE:
                return sum((scen.h64(self.salt, 61, b + k) & 0xff) << 8 * k for k in range(w // 8))
        return Heap.read(self, region, b, w, ver)


class R(HeapRule):
    traced = True

    def __init__(self, rep, entry, trials, seed):
        self.rep, self.trials, self.seed, self.kind = rep, trials, seed, ENTRIES[entry]

    def v(self, I, key, msg, h):
        self.rep.violation("%s:%s" % (key, I.entry), "%s %s" % (I.entry, msg), I.loc(), I.where(), describe(h))

    def backedge(self, I, s, n):
        if self.kind == "late" and any(c[0] == ("R", "bitmap") and n.mem.get(c) is not v for c, v in s.mem.items()):
            self.final(I, s, "loop", None)

    def make(self, I, r):
        h = THeap(I.mod, r, nz=r.choice([1, 2, 3]))
        z = r.choice(h.zones)
        z.internal, z.tagged = 0, 1
        z.live, z.allocs = r.choice([1, 2, 7]), r.choice([1, z.count, z.count * 9, z.count * 33])
        n = r.choice([0, 1, 31, 32, z.slots - 1, r.randrange(z.slots)]) % z.slots
        h.tk = z.i
        h.target = (z, n)
        return h, z, n

    def final(self, I, st, what, value):
        rep, k = self.rep, self.kind
        rep.site("return of an entry that handles tags", I.entry)
        r = rng_for(self.seed, I.entry, what)
        if k == "new":
            return self.fresh(I, st, r)
        hits = 0
        for t in range(self.trials):
            h, z, n = self.make(I, r)
            p, tag = h.chunk(z, n), h.tag(z, n)
            h.args[1] = z.addr ^ h.handle_mask
            h.bitover[(z.i, n)] = 1
            cls = "good"
            a = p
            if k in ("untag", "verify") or k == "free" and r.random() < .7:
                a = p | tag << 56
            if r.random() < .5 and k not in ("alloc", "late"):
                cls = r.choice(["wrong", "inside", "outside"])
                if cls == "wrong":
                    if k not in ("verify", "free"):
                        continue
                    w = r.randrange(0 if k == "verify" else 1, 256)
                    if w == tag:
                        continue
                    a = p | w << 56
                elif cls == "inside":
                    a += r.choice([8, z.C // 2 & ~7, z.C - 8])
                else:
                    a = r.choice([z.U - 8, z.U - z.C, z.U - PAGE, z.U + ZONE, z.U + ZONE + z.C, h.zones[0].U if z.i else 0x7fff00001000])
                    if z.U <= a < z.U + ZONE:
                        continue
                    if k in ("untag", "verify"):
                        a |= r.randrange(256) << 56
            if k == "alloc":
                h.args[0] = z.addr ^ h.handle_mask
                h.bitover[(z.i, n)] = r.choice([0, 2])
            else:
                h.args[0] = a
            if k == "late":
                h.qval, h.qcount = p, 64
                if I.entry == "iso_free_size":
                    h.args[1] = z.C
            tr = Trial(h)
            tr.propagate(st)
            if not tr.alive(st):
                if cls != "good":
                    rep.count("wrong tag refuted" if cls == "wrong" else "bad address refuted")
                continue
            ch = [w for (y, m, o, w) in bitmap_changes(tr, st, I)[0] if y is z and m == n] if k in ("free", "late", "alloc") else []
            if cls != "good":
                if k in ("free",) and cls != "wrong":
                    continue
                self.v(I, cls, "accepts %s" % {"wrong": "a pointer with a tag that is not its chunk's", "inside": "an address inside a chunk",
                                               "outside": "an address outside the zone"}[cls], h)
                return
            v = tr.ev(value) if value is not None else None
            if k in ("tag", "untag", "get"):
                want = {"tag": p | tag << 56, "untag": p, "get": tag}[k]
                if v is None:
                    rep.count("not followed")
                    continue
                if v & ((1 << value.w) - 1) != want:
                    self.v(I, "value", "returns 0x%x for chunk 0x%x whose tag is 0x%x" % (v, p, tag), h)
                    return
                rep.count({"tag": "tag added", "untag": "tag removed", "get": "tag read"}[k])
            elif k == "verify":
                rep.count("right tag accepted")
            elif k == "alloc":
                if not v:
                    continue
                m = (v & A56) - z.U
                if m % z.C or not 0 <= m < ZONE:
                    rep.count("not followed")
                    continue
                if v >> 56 != h.tag(z, m // z.C):
                    self.v(I, "alloc", "returns chunk %d with tag 0x%x instead of 0x%x" % (m // z.C, v >> 56, h.tag(z, m // z.C)), h)
                    return
                rep.count("tag added")
            else:
                if not ch or ch[0] not in (2, 3):
                    continue
                ef = Effects(tr, I.trace, loops=True)
                w = ef.content(h.tagaddr(z, n))
                if w is None:
                    self.v(I, "stale", "frees a chunk and keeps its tag", h)
                    return
                if w[0] == "byte" and w[1] == tag and w[2].kind == "store":
                    self.v(I, "same", "can give a freed chunk the tag it had", h)
                    return
                if w[0] == "copy" or w[2].kind == "memset":
                    self.v(I, "constant", "does not give a freed chunk a random tag", h)
                    return
                for d in (-1, 1):
                    x = ef.content(h.tagaddr(z, n) + d)
                    if x is not None and x[0] != "?" and 0 <= n + d < z.count and not x[2].nest and ef.certain(x[2]):
                        self.v(I, "other", "frees chunk %d and changes the tag of chunk %d" % (n, n + d), h)
                        return
                rep.count("tag replaced")
            hits += 1
            if hits > 40:
                return

    def fresh(self, I, st, r):
        rep = self.rep
        zr = P16.R(rep, I.entry, 0, self.seed)
        for t in range(self.trials * 2):
            h, z, need = zr.make(I, r)
            tr = Trial(h)
            tr.propagate(st)
            tr.use_bounds(st)
            if not tr.alive(st) and not tr.repair(st, r, rounds=3):
                continue
            m = View(tr, st, I)
            U = C = None
            for (f, a, i), x in m.cells.items():
                if f == ZT + ".user_pages_start" and x is not None:
                    u = x ^ (m.get(ZT, "pointer_mask", a) or 0) if h.mask_ptrs else x
                    if h.is_fresh(u):
                        U, C = u, m.get(ZT, "chunk_size", a)
            if U is None or not C:
                continue
            n = ZONE // C
            T = U - PAGE - (n + PAGE - 1) // PAGE * PAGE
            ef = Effects(tr, I.trace, loops=True, left=True)
            for o in (0, 1, n // 2, n // 2 + 8, n - 1):
                hit = False
                for e, x, ln in ef.ev:
                    if e.kind != "store":
                        continue
                    w = ef.in_loop(e, T + o) if ef.steps(e) else ef.one(tr, e, x, ln, T + o)
                    if w is not None:
                        hit = True
                        if not any(y.args[0] != "loop" for y in leaves(e.value)):
                            self.v(I, "constant", "gives the chunks of a new zone constant tags", h)
                            return
                if not hit:
                    self.v(I, "unset", "leaves the tag of chunk %d of a new zone of %d chunks unset" % (o, n), h)
                    return
            rep.count("new zone tagged")


def units(m, tier):
    return split([e for e in m.entries() if e in ENTRIES], 8)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs or not m.macros.get("MEMORY_TAGGING"):
            continue
        I = Interp(m, R(rep, e, TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
