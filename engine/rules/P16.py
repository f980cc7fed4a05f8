from .heap import *
from scen import h64
from terms import leaves

TITLE = "a new zone is laid out, guarded, secret and registered as its owner needs"
RULE = """Random interpretation of the dataflow states at every return of the entries that create or replace a zone, with the recorded mapping,
protection and memory effects: the zone record must fill the next unused slot (or the slot of the zone it replaces) and name that slot; its chunk
size, chunk count and bitmap size must fit the request and the mapping; its user pages must lie inside one fresh read-write mapping with an
inaccessible page on either side; its bitmap must be a guarded fresh mapping or an unused piece of a shared bitmap page; both lookup tables must
lead to it; its canary secret and pointer mask must be new random values; sealed chunks must carry canaries at both ends.  A replaced zone's pages
and bitmap must be unmapped or cleared, and nothing else unmapped."""
CONFIGS_QUICK = ["default", "tagging", "smallmem", "nomask", "nocanary"]
CONFIGS_THOROUGH = [c for c in ALL if c != "libc"]    # a checked memset reads every zone back: nothing certain is left
MIN_COUNTS = {"zone created": 40, "zone replaced": 10}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, bitmap pages)", "mmap returns fresh page aligned addresses; mprotect succeeds",
               "getrandom fills its buffer with values not used before"]
TRIALS = {"quick": 260, "thorough": 2500}
SHARE = {"new": 8, "alloc": 1 / 3, "free": 1 / 2, "destroy": 1.5}
ENTRIES = {
    "iso_alloc_new_zone": ("new", 0), "iso_alloc": ("alloc", 0), "malloc": ("alloc", 0), "_Znwm": ("alloc", 0), "iso_calloc": ("alloc", 1),
    "iso_free_permanently": ("free", 0), "iso_free_size": ("free", 0), "iso_free": ("free", 0), "iso_flush_caches": ("free", 0),
    "iso_free_from_zone": ("free", 0), "iso_alloc_destroy_zone": ("destroy", 0),
}


class ZHeap(Heap):
    entered = {}
    settled = ()

    def bitmaps(self):
        """the shared bitmap pages: piece size -> (record, page, pieces in use)"""
        d = self.__dict__.get("_bm")
        if d is None:
            g = self.mod.globals.get("small_bitmap_sizes") or {}
            sizes = [x for x in g.get("ints") or [1024, 512, 256, 128, 64, 32, 16] if x]
            f = self.mod.structs[ROOT]["fields"][self.mod.field(ROOT, "bitmaps")][1]
            n = self.mod.structs["iso_alloc_bitmap_t"]["size"]
            d = {}
            for j, x in enumerate(sizes):
                r = h64(self.salt, 51, j)
                full = (1 << min(32, PAGE // x)) - 1
                d[self.R0 + f + j * n] = [x, 0x7f2780000000 + 0x100000 * j + PAGE * (r % 200), [0, 1, 3, full, full, full >> 1, r >> 32 & full][(r >> 16) % 7]]
            self._bm = d
            for z in self.zones:
                if z.pre >= 0:
                    z.pre = -1
                    for b, e in d.items():
                        if e[0] == z.bsize:
                            z.pre = h64(self.salt, 52, z.i) % min(32, PAGE // z.bsize)
                            z.B = e[1] + z.pre * z.bsize
                            e[2] |= 1 << z.pre
        return d

    def field(self, S, f, b, ix, ver, w):
        if S == "iso_alloc_bitmap_t":
            e = self.bitmaps().get(b, (0, 0, 0))
            return e[("bucket", "bitmap", "in_use").index(f)] if f in ("bucket", "bitmap", "in_use") else None
        return Heap.field(self, S, f, b, ix, ver, w)

    def l_ld(self, x, a, ev):
        if a[1] == "local":                      # a local buffer filled by an external call
            return h64(self.salt, 41, x.id) & ((1 << x.w) - 1)
        if a[2] in self.settled and isinstance(a[4], tuple) and a[4][0] == "l":
            for cells in reversed(self.entered.get(a[4][1:], ())):     # on entry to the loop; it stays while the loop goes on
                v = cells.get((a[2], a[1], a[3]))
                if v is not None and v.w == x.w:
                    return ev(v)
        return Heap.l_ld(self, x, a, ev)

    def loopval(self, x, a, ev):
        if not x.step and x.w == 64 and not x.info and x.prov in (None, "int"):
            return h64(self.salt, 42, x.id)      # a value that takes part in no count, such as a random seed
        return Heap.loopval(self, x, a, ev)


class View(object):
    def __init__(self, tr, st, I):
        self.tr, self.h, self.mod = tr, tr.h, I.mod
        self.cells, self.reread = {}, set()
        for (cls, base, idx), v in st.mem.items():
            if cls[0] != "F" or base is None or not hasattr(base, "op"):
                continue
            n = I.mod.clsname(cls)
            if not n.startswith((ZT + ".", ROOT + ".", "iso_alloc_bitmap_t.")):
                continue
            a = tr.ev(base)
            i = 0 if idx is None else tr.ev(idx)
            if a is not None and i is not None:
                S, f = n.split(".")
                w, o = tr.ev(v), self.h.field(S, f, a, i, 0, v.w)
                if S == ZT and self.stale(v, cls, a):
                    self.reread.add((n, a))  # read back after stores that may have changed it
                # two terms may name one cell: the one that was written says what it holds
                if (n, a, i) not in self.cells or w is None or o is None or w != o & ((1 << v.w) - 1):
                    self.cells[(n, a, i)] = w

    def stale(self, v, cls, a):
        """the value holds the cell as read back after some store or loop"""
        return any(x.args[0] == "ld" and x.args[2] == cls and x.args[4] and not isinstance(x.args[1], str) and self.tr.ev(x.args[1]) == a for x in leaves(v))

    def get(self, S, f, a, i=0, w=64):
        k = (S + "." + f, a, i)
        if k in self.cells:
            return self.cells[k]
        return self.h.field(S, f, a, i, 0, w)


def covered(spans, lo, hi):
    """is every page of lo..hi in one of the spans"""
    for a in range(lo & ~(PAGE - 1), hi, PAGE):
        if not any(x <= a and a + PAGE <= y for x, y in spans):
            return False
    return True


def up(n):
    return (n + PAGE - 1) // PAGE * PAGE


class R(HeapRule):
    traced = True

    def __init__(self, rep, entry, trials, seed):
        self.rep, self.trials, self.seed = rep, trials, seed
        self.kind, self.argno = ENTRIES[entry]
        self.trials = int(self.trials * SHARE[self.kind])
        self.done = {}

    def backedge(self, I, s, n):
        if any(c[0] == ("R", "bitmap") and n.mem.get(c) is not v for c, v in s.mem.items()) and any(I.mod.clsname(c[0]) == ZT + ".user_pages_start" for c in s.mem):
            self.sealing(I, s, n)
        if self.kind == "free" and any(I.mod.clsname(c[0]) == ZT + ".user_pages_start" and n.mem.get(c) is not v for c, v in s.mem.items()):
            self.final(I, s, "loop", None)

    def make(self, I, r):
        k = self.kind
        if k == "free" or k == "destroy":
            h = ZHeap(I.mod, r, nz=r.choice([1, 2, 3]))
            z = r.choice(h.zones)
            z.internal, z.tagged = 1, 0
            if k == "destroy" or "from_zone" in I.entry:
                z.internal = 0
                z.tagged = 1 if h.tagging else 0
            z.C = r.choice([32, 64, 512, 1024, 8192, 96])
            z.count = ZONE // z.C
            z.bsize = z.count * 2 // 8
            z.maxidx = z.bsize >> 3
            z.slots = z.maxidx * 32
            z.tagsize = up(z.count)
            if z.pre >= 0 or r.random() < .5:
                z.pre = 0 if z.bsize <= PAGE else -1
                z.B &= ~(PAGE - 1)
            z.live = 1
            z.allocs = z.count * 33
            h.tk = z.i
            h.target = (z, r.randrange(z.slots))
            h.bitover[(z.i, h.target[1])] = 1
            p = h.chunk(*h.target)
            if k == "destroy":
                h.args[0] = z.addr ^ h.handle_mask
            else:
                h.args[0] = p
                h.qval, h.qcount = p, 64
                h.args[1] = z.addr ^ h.handle_mask if "from_zone" in I.entry else z.C
            need = z.C
        else:
            h = ZHeap(I.mod, r, nz=r.choice([1, 2, 3, 5]))
            z = h.zones[0]
            h.tk = z.i
            h.target = (z, r.randrange(z.slots))
            need = r.choice([1024, 2048, 4096, 8192, 16384]) if r.random() < .5 else r.choice([0, 1, 16, 31, 32, 33, 64, 96, 100, 128, 256, 512, 1000, 1024, 1025, 2048, 4096, 5000, 8192, 8193, 12345, 32768, 65504, 65535, 65536])
            h.args[self.argno] = need
            if self.argno:
                h.args[0] = 1
            if k == "alloc":
                for y in h.zones:
                    if r.random() < .7:
                        y.full = 1
                    elif r.random() < .7:
                        y.internal = 0
        h.bitmaps()
        h.entered = I.entered
        h.settled = [I.mod.fcls(ZT, f) for f in ("bitmap_start", "user_pages_start", "preallocated_bitmap_idx")]
        h.focus = [0, 1, 2, h.tk, h.tk]
        for j, e in enumerate(h.bitmaps().values()):
            if need and e[0] == ZONE // need // 4:
                h.focus += [j, j, PAGE // e[0], PAGE // e[0], PAGE // e[0] - 1]
        h.exits = 5
        return h, z, need

    def v(self, I, key, msg, h, k, need):
        self.rep.violation("%s:%s" % (key, I.entry), "%s: %s" % (I.entry, msg), I.loc(), I.where(),
                           "zone slot %s of %d in use; request for %d bytes; %s" % (k, h.nz, need, describe(h)))
        return True

    def final(self, I, st, what, value):
        rep = self.rep
        rep.site("state of a zone creation", I.entry + ":" + what)
        r = rng_for(self.seed, I.entry, what)
        n = 0
        zerr = 0
        for t in range(self.trials):
            h, z, need = self.make(I, r)
            tr = Trial(h)
            tr.propagate(st)
            tr.use_bounds(st)
            if not tr.alive(st) and not tr.repair(st, r, rounds=4):
                continue
            m = View(tr, st, I)
            made = []
            for (f, a, i) in m.cells:
                if f != ZT + ".user_pages_start" or not 0 <= a - h.ZB < 8192 * h.zsize:
                    continue
                u, k = m.cells[(f, a, i)], m.get(ZT, "pointer_mask", a)
                if u is None or k is None:
                    rep.count("unknown")
                    continue
                if u == h.field(ZT, "user_pages_start", a, 0, 0, 64):
                    continue
                u ^= k if h.mask_ptrs else 0
                if h.is_fresh(u) or h.zone_of(u) is None:
                    made.append((a, u))
            used = m.get(ROOT, "zones_used", h.R0)
            made = sorted(set(made))
            if not made:
                if used != h.nz and used is not None:
                    self.v(I, "count", "counts a zone that was not created", h, None, need)
                    return
                rep.count("no zone created")
                continue
            a, U = made[0]
            k, off = divmod(a - h.ZB, h.zsize)
            if len(made) > 1 or off:
                self.v(I, "slot", "creates a zone outside the zone table's slots" if off else "creates two zones at once", h, k, need)
                return
            try:
                bad = self.check(I, st, tr, m, h, z, need, k, a, U, used, value)
            except TypeError:
                rep.count("unknown")
                zerr += 1
                if zerr > self.trials // 2:
                    raise
                continue
            if bad:
                return
            n += 1
            if n > 400:
                return

    def check(self, I, st, tr, m, h, z, need, k, a, U, used, value):
        rep = self.rep

        def bad(key, msg):
            return self.v(I, key, msg, h, k, need)
        g = lambda f, i=0: m.get(ZT, f, a, i)
        ef = Effects(tr, I.trace)
        C, count, bs, mx = g("chunk_size"), g("chunk_count"), g("bitmap_size"), g("max_bitmap_idx")
        mask = g("pointer_mask") if h.mask_ptrs else 0
        B = g("bitmap_start") ^ mask
        if B >> 47 and (ZT + ".bitmap_start", a) in m.reread:
            rep.count("unknown")             # still masked with a value that was not followed
            return False
        new = k >= h.nz
        # the slot
        if new:
            if k != h.nz:
                return bad("slot", "creates a zone in slot %d although the next unused one is %d" % (k, h.nz))
            if used != h.nz + 1:
                return bad("count", "creates a zone in slot %d but leaves the number of zones at %d" % (k, used))
        else:
            if used != h.nz:
                return bad("count", "replaces zone %d but changes the number of zones to %d" % (k, used))
            if self.kind in ("new", "alloc") or k != z.i:
                return bad("slot", "creates a zone in the slot of zone %d, which is in use" % k)
        if g("index") != k:
            return bad("index", "the zone in slot %d records slot %d as its own" % (k, g("index")))
        if self.kind == "new" and value is not None:
            v = tr.ev(value)
            if v is not None and v != a ^ h.handle_mask:
                return bad("handle", "returns a handle that is not that of the zone created")
        # geometry
        if C < need or C < 32 or C % 32:
            return bad("size", "creates a zone of %d byte chunks for a request for %d" % (C, need))
        if not new and C != z.C:
            return bad("size", "replaces a zone of %d byte chunks by one of %d" % (z.C, C))
        if count != ZONE // C:
            return bad("chunks", "records %d chunks of %d bytes in %d bytes of user pages" % (count, C, ZONE))
        if mx * 8 > bs or mx * 32 > count or mx * 32 < count - 31:
            return bad("bitmap", "records %d bitmap words in %d bytes for %d chunks" % (mx, bs, count))
        if bool(g("internal")) != (self.kind != "new"):
            return bad("internal", "a zone %s is recorded as %s" % ("a program asked for" if self.kind == "new" else "of the allocator itself",
                                                                    "internal" if g("internal") else "private"))
        # mappings
        maps = [(tr.ev(e.ret), x[1], x[2], e) for e, x in ef.calls("mmap", "mmap64") if e.ret is not None]
        prot = [(x[0], x[1], x[2], e) for e, x in ef.calls("mprotect")]
        unm = [(x[0], x[1], e) for e, x in ef.calls("munmap")]

        def guarded(lo, hi, who):
            mp = [x for x in maps if x[0] is not None and x[0] <= lo and hi <= x[0] + up(x[1])]
            if not mp:
                return bad("map-" + who, "the %s (%d bytes) are not inside the pages mapped for them" % (who, hi - lo))
            M, n, pr, e = mp[-1]
            if pr != 3:
                return bad("prot-" + who, "the %s are not mapped readable and writable" % who)
            hi = up(hi)
            for p, s in ((lo - PAGE, "below"), (hi, "above")):
                if p < M or p + PAGE > M + up(n):
                    return bad("guard-%s-%s" % (s, who), "there is no guard page %s the %s" % (s, who))
                q = [x for x in prot if x[0] is not None and x[0] <= p and p + PAGE <= x[0] + up(x[1])]
                if not q or q[-1][2] != 0 or not ef.certain(q[-1][3]) and False:
                    return bad("guard-%s-%s" % (s, who), "the page %s the %s stays accessible" % (s, who))
            for x in prot:
                if x[0] is not None and x[0] < hi and lo < x[0] + x[1] and x[2] != 3 and ef.certain(x[3]):
                    return bad("lost-" + who, "makes part of the %s inaccessible" % who)
            for x in unm:
                if x[0] is not None and x[0] < hi + PAGE and lo - PAGE < x[0] + x[1] and ef.certain(x[2]):
                    return bad("lost-" + who, "unmaps part of the %s" % who)
            return False
        if U % PAGE:
            return bad("map-user", "the user pages do not start on a page")
        if guarded(U, U + ZONE, "user pages"):
            return True
        tagged = h.tagging and self.kind == "new"
        if h.tagging and bool(g("tagged")) != tagged:
            return bad("tagged", "a %s zone is recorded as %s" % ("private" if tagged else "internal", "tagged" if g("tagged") else "untagged"))
        if tagged and guarded(U - PAGE - up(count), U - PAGE, "tags"):
            return True
        pre = g("preallocated_bitmap_idx") & 0xff
        if h.is_fresh(B):
            if guarded(B, B + bs, "bitmap"):
                return True
            if pre != 0xff:
                return bad("bitmap-index", "a mapped bitmap is recorded as piece %d of a shared page" % pre)
        else:
            if pre == 0xff:
                return bad("bitmap-index", "a piece of a shared bitmap page is recorded as a mapping of its own")
            hit = None
            for b, (size, pg, o) in h.bitmaps().items():
                if pg <= B < pg + PAGE and size == bs:
                    hit = b
                    n = m.get("iso_alloc_bitmap_t", "in_use", b, 0, 32) & 0xffffffff
                    if B != pg + pre * bs or B + bs > pg + PAGE:
                        return bad("bitmap-piece", "the bitmap is not a piece of the shared page")
                    if pre < 32 and o >> pre & 1 and (new or B != z.B):
                        return bad("bitmap-shared", "takes a piece of the shared bitmap page that another zone uses")
                    if pre < 32 and not n >> pre & 1:
                        return bad("bitmap-shared", "does not mark the piece of the shared bitmap page as taken")
                    break
            if hit is None:
                return bad("bitmap-piece", "the bitmap is neither a fresh mapping nor a piece of a shared page of its size")
        # secrets
        for f in ("canary_secret",) + (("pointer_mask",) if h.mask_ptrs else ()):
            s = g(f)
            if s in (0, h.handle_mask, h.next_mask, h.big_secret) or any(s == getattr(y, "secret" if f == "canary_secret" else "mask") for y in h.zones):
                return bad("secret", "the zone's %s is not a fresh random value" % f.replace("_", " "))
        if h.mask_ptrs and g("canary_secret") == g("pointer_mask"):
            return bad("secret", "the zone's canary secret equals its pointer mask")
        # registration
        at = lambda p: h.CLT + 2 * ((p >> 32) & 0xffff)
        x = ef.last(at(U), 2)
        if x[0] is None:
            return bad("chunk-table", "does not enter the zone in the address lookup table")
        if x[0] != "?" and x[0] != k:
            return bad("chunk-table", "the address lookup table names zone %d for the pages of zone %d" % (x[0], k))
        ti = 2 * (C >> 4)
        cell = (ROOT + ".zone_lookup_table", h.R0, ti)
        old = h.field(ROOT, "zone_lookup_table", h.R0, ti, 0, 16)
        now = m.cells.get(cell, old)
        if now is not None:
            if self.kind == "new":
                if now != old:
                    return bad("size-table", "enters a private zone in the size lookup table")
            elif new and old == 0:
                if now != k:
                    return bad("size-table", "does not enter the first zone of its size in the size lookup table")
                if g("next_sz_index"):
                    return bad("size-chain", "links the first zone of its size to zone %d" % g("next_sz_index"))
            elif new:
                if now != k:
                    return bad("size-table", "does not enter the new zone in the size lookup table")
                if g("next_sz_index") != old:
                    return bad("size-chain", "cuts zone %d off the list of zones of %d byte chunks" % (old, C))
            else:
                if now != (old or k):
                    return bad("size-table", "the size lookup table names zone %d after zone %d was replaced" % (now, k))
                if old and g("next_sz_index") != h.field(ZT, "next_sz_index", z.addr, 0, 0, 16):
                    return bad("size-chain", "replacing zone %d changes the list of zones of %d byte chunks" % (k, C))
        for (f, b, i), v in m.cells.items():
            if f == ROOT + ".zone_lookup_table" and i != ti and v is not None and v != h.field(ROOT, "zone_lookup_table", h.R0, i, 0, 16):
                return bad("size-table", "changes the size lookup table's entry for another chunk size")
        # counters of a zone nothing was allocated from
        if self.kind in ("new", "free", "destroy"):
            for f in ("af_count", "alloc_count", "is_full"):
                if g(f):
                    return bad("counter", "a new zone starts with %s %d" % (f, g(f)))
        if not new and self.replaced(I, tr, ef, m, h, z, U, bad, unm, B):
            return True
        rep.count("zone replaced" if not new else "zone created")
        return False

    def replaced(self, I, tr, ef, m, h, z, U, bad, unm, B):
        spans = [(x[0], x[0] + up(x[1])) for x in unm if x[0] is not None and x[1] is not None]
        if not covered(spans, z.U - PAGE, z.U + ZONE + PAGE):
            return bad("unmap-user", "does not unmap the user pages and guard pages of the zone it replaces")
        if z.tagged and not covered(spans, z.U - 2 * PAGE - z.tagsize, z.U - PAGE):
            return bad("unmap-tags", "does not unmap the tags and their guard page of the zone it replaces")
        if z.pre < 0:
            if not covered(spans, z.B - PAGE, z.B + up(z.bsize) + PAGE):
                return bad("unmap-bitmap", "does not unmap the bitmap and guard pages of the zone it replaces")
        elif any(x < z.B + z.bsize and z.B < y for x, y in spans):
            return bad("unmap-bitmap", "unmaps the shared page that holds the bitmap of the zone it replaces")
        for x, n, e in unm:
            if x is None or n is None or not ef.certain(e):
                continue
            y = x + up(n)
            ok = z.U - 2 * PAGE - (z.tagsize + PAGE if z.tagged else 0) <= x and y <= z.U + ZONE + PAGE or z.pre < 0 and z.B - PAGE <= x and y <= z.B + up(z.bsize) + PAGE
            if not ok and any(b.addr & ~(PAGE - 1) in (x, x + PAGE) or b.U - PAGE <= x <= b.U + b.size for b in h.used + h.free):
                continue
            if not ok:
                return bad("unmap-other", "unmaps %d bytes at 0x%x, which are not the replaced zone's" % (n, x))
        el = Effects(tr, I.trace, loops=True, left=True)

        def written(q):
            """what the run may write to a byte, in any iteration"""
            r = []
            for e, x, n in el.ev:
                if e.kind in ("memset", "store"):
                    v = [el.one(tr, e, x, n, q)]
                    if v[0] is not None and not el.possible(e):
                        v = []
                    if el.steps(e):
                        v.append(el.in_loop(e, q))
                    r += [y for y in v if y is not None]
            return r
        if z.pre >= 0:
            for b, (size, pg, o) in h.bitmaps().items():
                if pg <= z.B < pg + PAGE and size == z.bsize:
                    o = b + I.mod.structs["iso_alloc_bitmap_t"]["fields"][I.mod.field("iso_alloc_bitmap_t", "in_use")][1]
                    if z.B != B and not any(v[0] == "byte" and not v[1] >> z.pre % 8 & 1 for v in written(o + z.pre // 8)):
                        return bad("bitmap-lost", "keeps the piece of the shared bitmap page of the zone it replaces")
            for q in (z.B, z.B + z.bsize // 2, z.B + z.bsize - 1):
                if ("byte", 0) not in written(q):
                    return bad("bitmap-stale", "leaves old chunk states in the piece of the shared bitmap page it gives back")
        x = ef.last(h.CLT + 2 * (z.U >> 32 & 0xffff), 2)
        if z.U >> 32 != U >> 32 and x[0] not in ("?", 0):
            return bad("chunk-table", "leaves the replaced zone's pages in the address lookup table")
        return False

    def sealing(self, I, s, n):
        """a state at the end of an iteration that sealed a chunk"""
        rep = self.rep
        r = rng_for(self.seed, I.entry, "seal", I.loc())
        hits = 0
        for t in range(self.trials // 4):
            h, z, need = self.make(I, r)
            tr = Trial(h)
            tr.propagate(s)
            if not tr.alive(s) and not tr.repair(s, r, rounds=3):
                continue
            m = View(tr, s, I)
            done = {}
            for (cls, base, idx), v in s.mem.items():
                if cls == ("R", "bitmap") and n.mem.get((cls, base, idx)) is not v:
                    a, w = tr.ev(base), tr.ev(v)
                    if a is not None and w is not None:
                        done[a] = w
            for (f, a, i), U in list(m.cells.items()):
                if f != ZT + ".user_pages_start" or U is None or not h.is_fresh(U):
                    continue
                B, C, sec = m.get(ZT, "bitmap_start", a), m.get(ZT, "chunk_size", a), m.get(ZT, "canary_secret", a)
                if None in (B, C, sec):
                    continue
                bs = max(8, ZONE // C * 2 // 8)
                ef = Effects(tr, I.trace)
                for x, w in done.items():
                    if not B <= x < B + bs:
                        continue
                    for j in range(32):
                        k = w >> 2 * j & 3
                        o = (h.read("bitmap", x, 64, 0) or 0) >> 2 * j & 3
                        if k == o:
                            continue
                        c = (x - B) // 8 * 32 + j
                        p = U + c * C
                        if k != 3:
                            self.v(I, "sealed", "a new zone's chunk %d starts in state %d" % (c, k), h, None, need)
                            return
                        for q in (p, p + C - 8):
                            y, _ = ef.last(q, 8)
                            if y != "?" and y != (sec ^ p) & ~0xff & M64:
                                self.v(I, "sealed", "seals chunk %d of a new zone without writing its canaries" % c, h, None, need)
                                return
                        rep.count("sealed chunk")
                        hits += 1
            if hits > 10:
                return


def units(m, tier):
    return split([e for e in m.entries() if e in ENTRIES], 4)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, e, TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
