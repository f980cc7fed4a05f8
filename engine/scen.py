"""Random interpretation of the analysed terms (Gulwani-Necula): a randomly
drawn abstract heap that satisfies the allocator's representation invariants
gives every leaf a number; path facts, stored values and return values of the
dataflow states are then evaluated under it.  Nothing of the program is run:
the terms come from the interprocedural dataflow (interp.py)."""
import random
from terms import *
import terms as tm

M64 = (1 << 64) - 1
PAGE = 4096
ZONE = 4194304
ROOT = "iso_alloc_root"
ZT = "iso_alloc_zone_t"
BT = "iso_alloc_big_zone_t"
CSIZES = [32, 32, 64, 96, 128, 160, 256, 512, 1024, 1056, 2048, 4096, 8192, 8224, 12288, 16384, 16416, 32768, 65536, 65536, 96, 224, 7168]


def h64(*a):
    """cheap deterministic hash"""
    x = 0x9E3779B97F4A7C15
    for v in a:
        if isinstance(v, str):
            for ch in v.encode():
                x = ((x ^ ch) * 0x100000001B3) & M64
        else:
            x ^= (v & M64)
            x = (x * 0xBF58476D1CE4E5B9) & M64
            x ^= x >> 29
    x = (x * 0x94D049BB133111EB) & M64
    return x ^ (x >> 31)


def verh(v):
    return h64(repr(v))


def bs64(v):
    return int.from_bytes(v.to_bytes(8, "little"), "big")


class Zone(object):
    pass


class Big(object):
    pass


class Heap(object):
    """one random heap.  mod: Module, rng: Random"""

    def __init__(self, mod, rng, nz=4, nb=3):
        self.mod = mod
        self.rng = rng
        self.salt = rng.getrandbits(60)
        self.focus = None         # values to prefer for loop variables
        self.focus_big = None
        self.iters = {}           # loop -> iteration drawn for its counters
        self.exits = 8            # how often (of 16) a loop variable takes a value it is compared with
        self.bounds = {}          # loop variable -> [(term, delta)]: what path facts compare it with
        self.cfg = mod.macros
        self.mask_ptrs = mod.macros.get("MASK_PTRS", 1)
        self.tagging = mod.macros.get("MEMORY_TAGGING", 0)
        self.over = {}            # leaf -> value
        self.args = {}            # arg index -> value
        self.fresh = {}           # leaf -> address
        self.fresh_ranges = []
        self.bitover = {}         # (zone, slot) -> 2 bits
        self.corrupt = set()      # data addresses whose canary is wrong
        self.bigcorrupt = set()   # (big index, 'canary_a'/'canary_b')
        self.root_null = False
        self.mmap_fail = False
        self.qcount = None
        self.qat = {}             # quarantine entries that differ from it
        self.qval = None          # value of every quarantine entry
        self.cachefull = None
        self.dbg = {}
        self.strs = []            # (address, length) of NUL terminated strings outside the heap
        r = rng
        self.zsize = mod.structs[ZT]["size"]
        self.rsize = mod.structs[ROOT]["size"]
        self.R0 = 0x7f1200000000 + PAGE * r.randrange(1, 1000)
        self.ZB = 0x7f2300000000 + PAGE * r.randrange(1, 1000)
        self.Q = 0x7f2400000000 + PAGE * r.randrange(1, 1000)
        self.CLT = 0x7f2500000000 + PAGE * r.randrange(1, 1000)
        self.ZERO = 0x7f2600000000 + PAGE * r.randrange(1, 1000)
        self.UAF = 0x7f2610000000 + PAGE * r.randrange(1, 1000)
        self.handle_mask = r.getrandbits(64) if self.mask_ptrs else 0
        self.sound = False        # chains and tables hold only entries the allocator itself would put there
        self.next_mask = r.getrandbits(64) if self.mask_ptrs else 0
        self.big_secret = r.getrandbits(64)
        self.seed = r.getrandbits(64)
        self.retire_shf = mod.macros.get("_ZRS", 5)
        self.zones = []
        used = 0x7f3000000000 + PAGE * r.randrange(1, 4000)
        for i in range(nz):
            z = Zone()
            z.i = i
            z.addr = self.ZB + i * self.zsize
            z.C = r.choice(CSIZES)
            z.count = ZONE // z.C
            z.internal = 1 if r.random() < .75 else 0
            z.tagged = 1 if (self.tagging and not z.internal) else 0
            z.bsize = max(8, z.count * 2 // 8)
            z.maxidx = z.bsize >> 3
            z.slots = min(z.count, z.maxidx * 32)     # chunks the bitmap words cover: the only ones ever handed out
            used += PAGE * r.randrange(2, 5000) + (16 * PAGE * 40 if z.tagged else 0)
            z.tagsize = (z.count + PAGE - 1) // PAGE * PAGE
            z.U = used
            used += ZONE
            z.mask = r.getrandbits(64) if self.mask_ptrs else 0
            z.secret = r.getrandbits(64)
            z.B = 0x7f2800000000 + i * 0x1000000 + PAGE * r.randrange(1, 100)
            z.pre = -1
            if z.bsize <= PAGE and r.random() < .4:
                z.pre = r.randrange(0, min(PAGE // z.bsize, 32))
                z.B += z.pre * z.bsize
            z.live = r.choice([1, 2, 7, z.count])
            z.allocs = r.choice([0, 1, z.count, z.count * 32 + 1, z.count * 33])
            z.full = 1 if r.random() < .15 else 0
            self.zones.append(z)
        self.nz = nz
        self.used, self.free = [], []
        for i in range(nb):
            self.mkbig(self.used, 0, 0x7f5000000000 + i * 0x1000000000)
        for i in range(r.randrange(0, nb + 1)):
            self.mkbig(self.free, 1, 0x7f5800000000 + i * 0x1000000000)
        self.only = False                         # the target is the only free chunk of its zone
        self.target = None        # (zone, slot)
        self.tk = r.randrange(nz)

    def mkbig(self, lst, free, base):
        r = self.rng
        b = Big()
        b.i = len(lst)
        b.free = free
        b.addr = 0x7f4000000000 + free * 0x800000000 + len(lst) * 0x1000000 + PAGE * r.randrange(1, 1000) + r.randrange(0, 4000)
        b.U = base + PAGE * r.randrange(1, 10000)
        b.size = PAGE * r.choice([17, 18, 64, 300, 1 << 19])
        b.ttl = r.choice([0, 1, 3, 1000])
        lst.append(b)
        return b

    # ---- helpers
    def chunk(self, z, n):
        return z.U + n * z.C

    def zone_of(self, a):
        for z in self.zones:
            if z.U <= a < z.U + ZONE:
                return z
        return None

    def zone_at(self, a):
        d = a - self.ZB
        if d >= 0 and d % self.zsize == 0 and d // self.zsize < self.nz:
            return self.zones[d // self.zsize]
        return None

    def big_at(self, a):
        for b in self.used + self.free:
            if b.addr == a:
                return b
        return None

    def canary(self, z, p):
        return (z.secret ^ p) & ~0xff & M64

    def damage(self, v, a, f):
        """another value than v: a bit flipped, a byte overwritten, zero or garbage"""
        r = h64(self.salt, 31, a, f == "canary_b")
        k = r % 6
        w = v
        if k < 3:
            w = v ^ 1 << (r >> 8) % 64
        elif k == 3:
            w = v ^ (0x41 << 8 * ((r >> 8) % 8))
        elif k == 4:
            w = r
        else:
            w = 0
        return w if w != v else v ^ 0x4100

    def bigcanary(self, b):
        return (b.addr ^ bs64(b.U) ^ self.big_secret) & M64

    def bits(self, z, n):
        """2-bit state of chunk n: bit0 in use, bit1 freed/canary"""
        o = self.bitover.get((z.i, n))
        if o is not None:
            return o
        wmode = h64(self.salt, 7, z.i, n >> 5) % 4
        if wmode == 0:
            return 0
        if wmode == 1:
            return 1
        if n & 31 == 0 and wmode == 2 and z.C <= 8192:
            return 3 if h64(self.salt, 9, z.i, n) & 1 else 0
        return h64(self.salt, 8, z.i, n) % 3

    def word(self, z, w):
        v = 0
        for j in range(32):
            n = w * 32 + j
            v |= self.bits(z, n) << (2 * j)
        return v

    def pick(self, leafs, cands):
        return cands[h64(self.salt, leafs) % len(cands)]

    def mkfresh(self, key, size=1 << 24):
        if key not in self.fresh:
            a = 0x7f6000000000 + len(self.fresh) * 0x40000000 + PAGE * (h64(self.salt, repr(key)) % 1000)
            self.fresh[key] = a
            self.fresh_ranges.append((a, a + 0x20000000))
        return self.fresh[key]

    def is_fresh(self, a):
        return any(x <= a < y for x, y in self.fresh_ranges)

    # ---- the interpretation of leaves
    def __call__(self, x, ev):
        o = self.over.get(x)
        if o is not None:
            return o
        a = x.args
        k = a[0]
        f = getattr(self, "l_" + k, None)
        return f(x, a, ev) if f else None

    def l_arg(self, x, a, ev):
        return self.args.get(a[2])

    def l_g(self, x, a, ev):
        return 0x555500000000 + (h64(a[1]) % (1 << 20)) * 65536

    def l_fn(self, x, a, ev):
        return 0x555400000000 + (h64(a[1]) % (1 << 20)) * 64

    def l_alloca(self, x, a, ev):
        return 0x7ffd00000000 + (x.id % (1 << 16)) * 4096

    def l_loop(self, x, a, ev):
        """counters of the same loop are in the same iteration"""
        if not x.step or x.init is None:
            return self.loopval(x, a, ev)
        i = ev(x.init)
        if i is None:
            return self.loopval(x, a, ev)
        key = a[1], a[2]
        for y, v in self.over.items():
            if y.args[0] == "loop" and (y.args[1], y.args[2]) == key and y.step and y.init is not None:
                j = ev(y.init)
                if j is not None:
                    d = (v - j) & ((1 << y.w) - 1)
                    d = d - (1 << y.w) if d >> (y.w - 1) else d
                    if d % y.step == 0:
                        return (i + d // y.step * x.step) & ((1 << x.w) - 1)
        if key in self.iters:
            return (i + self.iters[key] * x.step) & ((1 << x.w) - 1)
        v = self.loopval(x, a, ev)
        if v is not None and key not in self.iters:
            d = (v - i) & ((1 << x.w) - 1)
            d = d - (1 << x.w) if d >> (x.w - 1) else d
            if d % x.step == 0:
                self.iters[key] = d // x.step
        return v

    def loopval(self, x, a, ev):
        h = h64(self.salt, 3, x.id)
        bd = self.bounds.get(x)
        if self.focus and bd and (h >> 42) % 16 < self.exits:
            t, d = bd[(h >> 46) % len(bd)]
            w = ev(t)
            if w is not None:
                return (w + d) & ((1 << x.w) - 1)
        if self.strs and x.step == 1 and x.init is not None:
            v = ev(x.init)
            for s, n in self.strs:
                if v is not None and (v == s or v == 0) and h >> 54 & 1:
                    return v + n
        if x.init is not None and h >> 50 & 1:
            v = ev(x.init)
            if v is not None:
                return v
        if x.w == 1:
            return h & 1
        prov = x.prov
        if x.w == 64 and x.info:
            S, m = x.info, 0
            if S[:2] == "x:":
                S, m = S[2:], self.next_mask
            if S == BT:
                if self.focus and x.init is not None:
                    l = [y.args for y in leaves(x.init) if y.args[0] == "ld" and y.args[2][0] == "F"]
                    l = [self.mod.structs[y[2][1]]["fields"][y[2][2]][0] for y in l if y[2][1] == ROOT]
                    l = self.free if "big_zone_free" in l else self.used if "big_zone_used" in l else None
                    if l is not None:
                        f = [b.addr for b in l if b.addr == self.focus_big]
                        f = f * 3 + [b.addr for b in l] + [m] * (1 if f else len(l) + 1)
                        return f[h % len(f)] ^ m
                if self.focus_big and h >> 30 & 3:
                    return self.focus_big ^ m if h >> 30 & 1 else 0
                c = [b.addr for b in self.used] * 2 + [b.addr for b in self.free]
                k = h % (len(c) + 1)
                return c[k] ^ m if k < len(c) else 0
            if S == ZT:
                return self.zones[h % self.nz].addr if h >> 20 & 7 else 0
            if S == ROOT:
                return self.R0
        if x.w == 64 and prov is not None and prov != "int":
            if prov == "data":
                z = self.zones[h % self.nz]
                return self.chunk(z, (h >> 8) % z.count)
            if prov == "bitmap":
                z = self.zones[h % self.nz]
                return z.B + 8 * ((h >> 8) % z.maxidx)
            return None
        c = [0, 1, 2, self.tk, self.tk, h >> 40 & 7]
        if self.target:
            z, n = self.target
            c += [n >> 5, n * 2, n & 31, (n & 31) * 2, n]
        c += [c2 for c2 in (30, 62, 63)]
        v = c[h % len(c)]
        if self.focus and (h >> 30) % 8:
            v = self.focus[(h >> 36) % len(self.focus)]
        if x.step and x.init is not None:
            # values the loop can reach
            a = ev(x.init)
            if a is not None:
                a = a - (1 << x.w) if a >> (x.w - 1) else a
                if (v - a) % x.step or (v - a) // x.step < 0:
                    v = a + x.step * (h >> 33 & 7)
                v &= (1 << x.w) - 1
        return v

    def l_call(self, x, a, ev):
        n = a[1]
        if n in ("mmap", "mmap64"):
            if self.mmap_fail:
                return M64
            return self.mkfresh(x)
        if n == "sysconf":
            return PAGE
        if n in ("sched_getcpu", "_iso_getcpu"):
            return h64(self.salt, 77) % 4
        if n in ("mprotect", "madvise", "munmap", "mlock", "prctl", "getrusage"):
            return 0
        if x.w == 64 and n in ("getrandom", "syscall", "read"):
            return 8
        if x.w == 64 and n == "strlen":
            return h64(self.salt, x.id) % 300
        return None

    def l_ovf(self, x, a, ev):
        return None

    def l_rmw(self, x, a, ev):
        return h64(self.salt, x.id)

    def l_ld(self, x, a, ev):
        base, cls, idx, ver = a[1], a[2], a[3], a[4]
        if cls[0] == "G":
            return self.glob(cls[1], x, idx, ver, ev)
        if cls[0] == "F":
            if isinstance(base, str):
                return None
            b = ev(base)
            if b is None:
                return None
            ix = 0
            if idx is not None:
                ix = ev(idx)
                if ix is None:
                    return None
            fn = self.mod.structs[cls[1]]["fields"][cls[2]][0] if cls[1] in self.mod.structs else None
            return self.field(cls[1], fn, b, ix, ver, x.w)
        return None

    def glob(self, n, x, idx, ver, ev):
        if n == "_root":
            return 0 if self.root_null else self.R0
        if n == "g_page_size":
            return PAGE
        if n == "g_page_size_shift":
            return 12
        g = self.mod.globals.get(n)
        if g and g.get("const") and "ints" in g:
            k = 0 if idx is None else ev(idx)
            if k is None:
                return None
            k //= g["eltbytes"]
            return g["ints"][k] if 0 <= k < len(g["ints"]) else None
        if n == "zone_cache_count":
            if not any(z.internal for z in self.zones):
                return 0
            return h64(self.salt, n, verh(ver)) % 9
        if n == "zone_cache":
            return 0x555500000000 + (h64(n) % (1 << 20)) * 65536
        return None

    def slotval(self, z, key):
        """value of a cached free slot: free ones mostly, sometimes anything"""
        h = h64(self.salt, 5, key)
        m = h % 8
        if m == 0:
            return M64
        if self.only and self.target and self.target[0] is z:
            return self.target[1] * 2
        if self.target and self.target[0] is z and m < 6:
            return self.target[1] * 2
        n = (h >> 8) % z.slots
        if m < 7:
            for d in range(64):
                q = (n + d) % z.slots
                if not self.bits(z, q) & 1:
                    return q * 2
        return n * 2

    def field(self, S, f, b, ix, ver, w):
        vh = verh(ver)
        if S == ROOT:
            if b != self.R0:
                return self.wild(b, f)
            if f == "zones":
                return self.ZB
            if f == "chunk_lookup_table":
                return self.CLT
            if f == "chunk_quarantine":
                return self.Q
            if f == "zero_alloc_page":
                return self.ZERO
            if f == "uaf_ptr_page":
                return self.UAF
            if f == "zones_used":
                return self.nz
            if f == "zone_handle_mask":
                return self.handle_mask
            if f == "big_zone_next_mask":
                return self.next_mask
            if f == "big_zone_canary_secret":
                return self.big_secret
            if f == "seed":
                return h64(self.salt, 1, vh)
            if f == "zones_size":
                return (8192 * self.zsize + 3 * PAGE - 1) // PAGE * PAGE
            if f == "zone_retirement_shf":
                return self.retire_shf
            if f == "chunk_quarantine_count":
                if self.qcount is not None:
                    return self.qcount
                return [0, 1, 5, 63, 64][h64(self.salt, 2) % 5]
            if f == "big_zone_free":
                return (self.free[0].addr ^ self.next_mask) if self.free else 0
            if f == "big_zone_used":
                return (self.used[0].addr ^ self.next_mask) if self.used else 0
            if f == "big_zone_free_count":
                return len(self.free)
            if f == "big_zone_used_count":
                return len(self.used)
            if f == "zone_lookup_table":
                h = h64(self.salt, 4, ix)
                c = [z.i for z in self.zones if z.internal and z.C >> 4 == ix // 2] or [0]
                return [0, c[0], c[-1], c[0], c[-1], c[0], c[-1], h % self.nz][(h >> 8) % 8]
            return None
        if S == ZT:
            z = self.zone_at(b)
            if z is None:
                if self.is_fresh(b) or 0 <= b - self.ZB < 8192 * self.zsize:
                    return 0                      # a slot of the zone table never used so far
                return self.wild(b, f)
            if f == "user_pages_start":
                return z.U ^ z.mask
            if f == "bitmap_start":
                return z.B ^ z.mask
            if f == "next_free_bit_slot":
                return self.slotval(z, h64(11, z.i, vh))
            if f == "free_bit_slots":
                return self.slotval(z, h64(12, z.i, ix, vh))
            if f == "canary_secret":
                return z.secret
            if f == "pointer_mask":
                return z.mask
            if f == "max_bitmap_idx":
                return z.maxidx
            if f == "chunk_size":
                return z.C
            if f == "bitmap_size":
                return z.bsize
            if f == "af_count":
                return z.live
            if f == "alloc_count":
                return z.allocs
            if f == "chunk_count":
                return z.count
            if f == "index":
                return z.i
            if f == "next_sz_index":
                h = h64(self.salt, 6, z.i)
                c = [y.i for y in self.zones if y.C == z.C and y.internal] or [0]
                return [0, c[h % len(c)], 0, c[h % len(c)], c[-1] if self.sound else h % self.nz][(h >> 9) % 5] if not self.sound or z.C == self.zones[c[0]].C else 0
            if f == "free_bit_slots_index":
                return [0, 1, 200, 255][h64(self.salt, 13, z.i, vh) % 4]
            if f == "free_bit_slots_usable":
                return [0, 1, 3, 254, 255][h64(self.salt, 14, z.i, vh) % 5]
            if f == "preallocated_bitmap_idx":
                return z.pre & 0xff
            if f == "internal":
                return z.internal
            if f == "is_full":
                return z.full
            if f == "tagged":
                return z.tagged
            if f == "cpu_core":
                return h64(self.salt, 77) % 4
            return None
        if S == BT:
            g = self.big_at(b)
            if g is None:
                if self.is_fresh(b):
                    return 0
                return self.wild(b, f)
            lst = self.free if g.free and g in self.free else self.used
            if f == "canary_a" or f == "canary_b":
                v = self.bigcanary(g)
                return self.damage(v, b, f) if (g, f) in self.bigcorrupt else v
            if f == "free":
                return g.free
            if f == "size":
                return g.size
            if f == "ttl":
                return g.ttl
            if f == "user_pages_start":
                return g.U
            if f == "next":
                k = lst.index(g)
                return (lst[k + 1].addr ^ self.next_mask) if k + 1 < len(lst) else 0
            return None
        if S == "_tzc":
            h = h64(self.salt, 15, b, ix)
            z = self.zones[self.tk if h & 1 else (h >> 4) % self.nz]
            if not z.internal:
                for y in self.zones:
                    if y.internal:
                        z = y
                        break
            if f == "zone":
                return z.addr
            if f == "chunk_size":
                return z.C
        if S == "iso_alloc_bitmap_t":
            h = h64(self.salt, 16, b)
            if f == "in_use":
                return [0, 1, 3, 0xffffffff, h >> 32][h % 5]
            if f == "bucket":
                return [16, 32, 64, 128, 256, 512, 1024][h % 7]
            if f == "bitmap":
                return 0x7f2780000000 + PAGE * (h % 4096)
        return None

    def wild(self, b, f):
        self.dbg.setdefault("wild", set()).add((b, f))
        return h64(self.salt, 99, b, f)

    def l_rd(self, x, a, ev):
        addr, region, ver = a[1], a[2], a[3]
        b = ev(addr)
        if b is None:
            return None
        return self.read(region, b, x.w, ver)

    def read(self, region, b, w, ver):
        if self.is_fresh(b):
            return 0
        if region in ("unk", "data", "int"):      # a walking pointer: the address says what is read
            region = ("p:chunk_quarantine" if self.Q <= b < self.Q + PAGE else "p:chunk_lookup_table" if self.CLT <= b < self.CLT + 2 * 65536 else region)
        for s, n in self.strs:
            if s <= b < s + (1 << 30):
                return sum((0 if b + k == s + n else 1 + h64(self.salt, 21, b + k) % 255) << (8 * k) for k in range(w // 8))
        if region == "bitmap" or region == "unk" or region == "data":
            for z in self.zones:
                if z.B <= b and b + w // 8 <= z.B + max(z.bsize, 8):
                    return self.rdbits(z, b - z.B, w)
        if region == "p:chunk_lookup_table":
            h = h64(self.salt, 17, b)
            return [0, self.tk, self.tk, h % self.nz][(h >> 8) % 4]
        if region == "p:chunk_quarantine":
            q = self.qat.get((b - self.Q) // 8) if self.qat else None
            return q if q is not None else self.qval
        if region == "bitmap" and self.salt & 3:
            return 0x55555555555555555555555555555555 & ((1 << w) - 1)      # looks allocated: the adversarial content
        if region in ("data", "bitmap", "unk", "int"):
            z = self.zone_of(b)
            if z is not None:
                n = (b - z.U) // z.C
                p = self.chunk(z, n)
                if w == 64 and b - p in (0, z.C - 8):
                    v = self.canary(z, p)
                    return self.damage(v, b, 0) if b in self.corrupt else v
                return h64(self.salt, 18, b) & ((1 << w) - 1)
        return h64(self.salt, 19, b) & ((1 << w) - 1)

    def rdbits(self, z, off, w):
        v = 0
        for k in range((w + 63) // 64):
            v |= self.word(z, off // 8 + k) << (64 * k)
        if off % 8:
            v >>= (off % 8) * 8
        return v & ((1 << w) - 1)


class Trial(object):
    """one heap with its evaluator"""

    def __init__(self, heap):
        self.h = heap
        self.ev = Eval(heap)

    _bounds = (None, None)

    def use_bounds(self, st):
        """let loop variables take the values the state's facts compare them with"""
        if Trial._bounds[0] is not st.facts:
            Trial._bounds = (st.facts, loop_bounds(st.facts))
        self.h.bounds = Trial._bounds[1]

    def alive(self, st):
        """no fact of the state is definitely false"""
        ev = self.ev
        for f in st.facts:
            if ev(f) == 0:
                return False
        return True

    def why_dead(self, st):
        return [f for f in st.facts if self.ev(f) == 0]

    def propagate(self, st):
        """facts leaf == const settle leaves the heap does not model"""
        for f in st.facts:
            if f.op == "eq" and f.args[0].op == "leaf" and is_c(f.args[1]) and f.args[0].args[0] in ("loop", "call", "undef", "rmw", "ev", "join"):
                self.h.over[f.args[0]] = cval(f.args[1])

    def repair(self, st, rng, rounds=5, frozen=(), stepped=False):
        """steer the loop variables (which the heap leaves free) towards the
        state: while a path fact is false, pick the cheapest set of loop-guard
        atoms whose truth would make it hold and choose loop values that flip
        them.  True when the state is then not refuted."""
        for k in range(rounds):
            dead = self.why_dead(st)
            if not dead:
                return True
            ev = self.ev
            memo = {}
            n, atoms = flips(ev, dead[0], 1, memo)
            if n >= 100:
                return False
            done = False
            for a, want in dict.fromkeys(atoms):
                ls = [x for x in sorted(leaves(a), key=lambda x: x.id) if x.args[0] == "loop" and x not in frozen and (x.step or not stepped)]
                if not ls:
                    continue
                rng.shuffle(ls)
                vals = [v for v in (ev(y) for y in kids(a)) if v is not None]
                cand = [0, 1]
                for v in vals:
                    cand += [v, v + 1, v - 1, v >> 1]
                rng.shuffle(cand)
                for x in ls[:4]:
                    old = self.h.over.get(x)
                    ok = False
                    for c in cand + ([ev(x.init)] if x.init is not None and ev(x.init) is not None else []):
                        self.h.over[x] = c & ((1 << x.w) - 1)
                        if Eval(self.h)(a) == want:
                            ok = True
                            break
                    if ok:
                        done = True
                        break
                    if old is None:
                        self.h.over.pop(x, None)
                    else:
                        self.h.over[x] = old
            self.ev = Eval(self.h)
            if not done:
                return self.alive(st)
        return self.alive(st)


def loop_bounds(facts):
    r, seen, todo = {}, set(), list(facts)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("ult", "slt", "eq"):
            for a, b, d in ((t.args[0], t.args[1], (0, 0, 0, 0, 0, -1)), (t.args[1], t.args[0], (0, 0, 0, 1, 1, 1))):
                k = 0
                if a.op == "lin" and len(a.args[1]) == 1 and a.args[1][0][1] == 1:
                    k, a = a.args[0], a.args[1][0][0]
                if a.op == "leaf" and a.args[0] == "loop" and a.w == b.w and a.step:
                    if not any(y.args[0] == "loop" and y.id >= a.id for y in leaves(b)):
                        e = [(b, j - k) for j in d]
                        if e[0] not in r.setdefault(a, []):
                            r[a] += e
        todo += kids(t)
    return r


def flips(ev, t, want, memo):
    """(weight, atoms) of the cheapest change that makes t evaluate to want"""
    k = (t, want)
    r = memo.get(k)
    if r is not None:
        return r
    v = ev(t)
    if v == want or v is None:
        r = (0, ())
    elif t.op == "not":
        r = flips(ev, t.args[0], 1 - want, memo)
    elif t.op == "all":
        best = None
        n, at = 0, ()
        for x in t.args[0]:
            q = flips(ev, x, want, memo)
            if want:
                n += q[0]
                if n >= 1000:
                    n, at = 1000, ()
                    break
                at += q[1]
            elif best is None or q[0] < best[0]:
                best = q
        r = (n, at) if want else best
    elif t.op == "ite" and t.w == 1:
        a = flips(ev, t.args[0], 1, memo)
        b = flips(ev, t.args[1], want, memo)
        c = flips(ev, t.args[0], 0, memo)
        d = flips(ev, t.args[2], want, memo)
        r = min((a[0] + b[0], a[1] + b[1]), (c[0] + d[0], c[1] + d[1]), key=lambda x: x[0])
    elif t.op in ("ult", "slt", "eq") and any(x.args[0] == "loop" for x in leaves(t)):
        r = (1, ((t, want),))
    else:
        r = (100, ())
    memo[k] = r
    return r


def bitmap_changes(tr, st, I):
    """net transitions of chunk states recorded in a state's bitmap cells:
    list of (zone, chunk, old, new) plus unknown/foreign cells"""
    out, other = [], []
    h = tr.h
    for (cls, base, idx), v in list(st.mem.items()):
        if cls != ("R", "bitmap") and cls != ("R", "unk"):
            continue
        a = tr.ev(base)
        n = tr.ev(v)
        if a is None or n is None:
            if cls == ("R", "bitmap"):
                other.append(("unknown", base, v))
            continue
        if h.is_fresh(a):
            continue
        hit = False
        for z in h.zones:
            if z.B <= a and a + v.w // 8 <= z.B + max(z.bsize, 8):
                hit = True
                o = h.rdbits(z, a - z.B, v.w)
                if o != n:
                    for j in range(0, v.w, 2):
                        x, y = (o >> j) & 3, (n >> j) & 3
                        if x != y:
                            out.append((z, ((a - z.B) * 8 + j) // 2, x, y))
        if not hit and cls == ("R", "bitmap") and n != h.read("bitmap", a, v.w, 0):
            other.append(("foreign", a, n))
    return out, other
