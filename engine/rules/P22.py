from .biglist import *
from .P11 import R as TraceRule

import os
import sys
TITLE = "valid calls on an intact heap are served"
RULE = """Random interpretation of the dataflow states at every return of every public entry, with the loops that walk lists of large allocations
unrolled: for each class of valid call (entry, kind of block, its position in its zone, zone or list, state of its neighbours, size class, number of
delayed frees) heaps without any damage are drawn, and some state that returns (a block, when an allocation was asked for) must be left unrefuted.
A class whose heaps refute every such state is a valid call that always aborts or is turned away.  The same with every mapping that asks for huge
pages failing."""
CONFIGS_QUICK = ["default", "tagging", "abortnull", "cpp-release"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"valid call served": 200}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "a loop over zones or bitmap words is one generic iteration"]
TRIALS = {"quick": 3, "thorough": 12}
SALTS = 30
BIG_MAX = 1 << 32
HUGE = {"quick": 1, "thorough": 1}
QUERY = {"iso_chunksz": {"p": 0}, "malloc_usable_size": {"p": 0}, "malloc_size": {"p": 0}}
ANY = {"iso_verify_zones": {}, "iso_verify_zone": {"zone": 0}, "iso_alloc_detect_leaks": {}, "iso_alloc_detect_zone_leaks": {"zone": 0},
       "iso_alloc_mem_usage": {}, "iso_alloc_zone_mem_usage": {"zone": 0}, "iso_zone_chunk_count": {"zone": 0}, "iso_alloc_name_zone": {"zone": 0},
       "iso_alloc_destroy_zone": {"zone": 0}}
TAGS = {"iso_alloc_tag_ptr": {"p": 0, "zone": 1}, "iso_alloc_get_mem_tag": {"p": 0, "zone": 1}}
MORE = {"iso_alloc_new_zone": {"size": 0}, "iso_realloc": {"p": 0, "size": 1}, "realloc": {"p": 0, "size": 1}}
ALLOC = {k: v for k, v in ALLOCS.items()}
ALLOC.update({"memalign": {"size": 1, "align": 0}, "aligned_alloc": {"size": 1, "align": 0}, "posix_memalign": {"size": 2, "align": 1, "status": 1},
              "iso_alloc_new_zone": {"size": 0}})
MAP_HUGETLB = 0x40000


class R(TraceRule):
    trace_more = ("ret",)


def macro(I, n):
    v = I.mod.macros.get(n, 0)
    return bool(v) and v != "0"


class Check(object):
    def __init__(self, I, rep, e, tier, seed):
        self.I, self.rep, self.e, self.tier, self.seed = I, rep, e, tier, seed
        self.rng = rng_for(seed, e + ":repair")
        self.loops = Loops(I)
        self.rets = [x for x in I.trace if x.kind == "ret"]
        self.maps = [x for x in I.trace if x.kind == "call" and x.fn in ("mmap", "mmap64")]
        for x in self.rets:
            rep.site("return", "%s@%s" % (e, x.loc))

    def base(self, r, private=False):
        I = self.I
        h = Heap(I.mod, r, nz=r.choice([1, 2, 3, 4]))
        h.sound = True
        for z in h.zones:
            z.full = 0
            z.live = max(3, z.live)
        if not any(z.internal for z in h.zones) and not private:
            h.zones[0].internal, h.zones[0].tagged = 1, 0
        return h

    def neighbours(self, h, r, z, n, left, right):
        for k, s in ((n - 1, left), (n + 1, right)):
            if 0 <= k < z.slots:
                h.bitover[(z.i, k)] = s

    def frees(self, spec, query=False):
        """classes of valid frees: (key, maker)"""
        out = []
        for pos in ("first", "last", "word end", "word start", "middle"):
            for left, right in ((0, 0), (1, 2), (2, 1), (3, 3)):
                for q in ((0, 63, 64) if "p" in spec and not query and "zone" not in spec else (0,)):
                    out.append((("chunk", pos, left, right, q), lambda r, a=(pos, left, right, q): self.chunk(r, spec, *a)))
        for zp in ("first", "last"):
            for C in (32, 96, 1024, 8192, 65536):
                out.append((("zone", zp, C), lambda r, a=(zp, C): self.zonepos(r, spec, *a)))
        if "zone" not in spec:
            for k in range(3):
                out.append((("large", k), lambda r, k=k: self.large(r, spec, k)))
            out.append((("null",), lambda r: self.null(r, spec)))
        return out

    def ptr(self, h, spec, z, n, p, size):
        h.args[spec["p"]] = h.qval = p
        if "zone" in spec:
            h.args[spec["zone"]] = z.addr ^ h.handle_mask
        if "size" in spec:
            h.args[spec["size"]] = size

    def chunk(self, r, spec, pos, left, right, q):
        h = self.base(r, "zone" in spec)
        z = r.choice(h.zones)
        if "zone" in spec:
            z.internal, z.tagged = 0, 1 if h.tagging else 0
        h.tk = z.i
        n = {"first": 0, "last": z.slots - 1, "word end": 31, "word start": 32, "middle": r.randrange(z.slots)}[pos] % z.slots
        h.target = (z, n)
        self.neighbours(h, r, z, n, left, right)
        h.bitover[(z.i, n)] = 1
        h.qcount = q
        p = h.chunk(z, n)
        self.ptr(h, spec, z, n, p, r.choice([z.C, z.C, 1, z.C // 2]))
        if q:
            y = r.choice(h.zones)
            k = r.randrange(y.slots)
            if (y, k) == (z, n):
                k = (k + 5) % y.slots
            h.bitover[(y.i, k)] = 1
            h.qval = h.chunk(y, k)
        return h

    def zonepos(self, r, spec, zp, C):
        h = self.base(r, "zone" in spec)
        for t in range(400):
            z = h.zones[0 if zp == "first" else -1]
            if z.C == C:
                break
            h = self.base(r, "zone" in spec)
        else:
            return None
        if "zone" in spec:
            z.internal, z.tagged = 0, 1 if h.tagging else 0
        h.tk = z.i
        n = r.choice([0, 31, z.slots - 1, r.randrange(z.slots)]) % z.slots
        h.target = (z, n)
        h.bitover[(z.i, n)] = 1
        h.qcount = 0
        self.ptr(h, spec, z, n, h.chunk(z, n), C)
        return h

    def large(self, r, spec, k):
        h = self.base(r)
        if k >= len(h.used):
            return None
        b = h.used[k]
        h.focus_big = b.addr
        z = h.zones[0]
        h.target = (z, 0)
        h.qcount = 0
        self.ptr(h, spec, None, 0, b.U, r.choice([b.size, b.size - 1, 65537]))
        return h

    def null(self, r, spec):
        h = self.base(r)
        h.target = (h.zones[0], 0)
        self.ptr(h, spec, None, 0, 0, 0)
        return h

    # ---- allocations
    def allocs(self, spec):
        out = []
        if "size" in spec:
            for C in sorted(set(scen.CSIZES)):
                if self.e == "iso_alloc_new_zone" and C < 4096:
                    continue
                for d in (0, -1, 1 - 32):
                    if C + d > 0:
                        out.append((("size", C, d), lambda r, a=(C, d): self.small(r, spec, *a)))
                out.append((("last chunk", C), lambda r, a=(C, 0, -1): self.small(r, spec, *a)))
            if self.e != "iso_alloc_new_zone":
                for s in (65537, 100000, 1 << 20, 1 << 21, 1 << 22, (1 << 22) - 4096, 1 << 30, BIG_MAX - PAGE):
                    for hv in (0, 1):
                        out.append((("large", s, hv), lambda r, a=(s, hv): self.bigreq(r, spec, *a)))
            for s in (65505, 65536) if self.e in ("iso_alloc", "iso_alloc_new_zone") else ():
                out.append((("new", s), lambda r, s=s: self.fresh(r, spec, s)))
        else:
            for C in sorted(set(scen.CSIZES)):
                for n in (None, 0, -1):
                    out.append((("private", C, {None: "any", 0: "first", -1: "last"}[n]), lambda r, a=(C, n): self.private(r, spec, *a)))
        return out

    def size(self, h, r, spec, s):
        h.args[spec["size"]] = s
        if "n" in spec:
            k = 1
            h.args[spec["n"]] = k
        if "align" in spec:
            h.args[spec["align"]] = r.choice([8, 16, 32, 64])
        if spec.get("status") and 0 not in h.args:
            h.args[0] = 0x7ffd12340000

    def small(self, r, spec, C, d, at=None):
        for t in range(400):
            h = self.base(r)
            z = r.choice(h.zones)
            if z.C == C:
                break
        else:
            return None
        z.internal, z.tagged = 1, 0
        h.tk = z.i
        free = [n for n in range(min(z.slots, 2000)) if not h.bits(z, n) & 1]
        n = at % z.slots if at is not None else r.choice(free) if free else 0
        h.only = at is not None
        h.bitover[(z.i, n)] = 0
        h.target = (z, n)
        self.size(h, r, spec, C + d)
        return h

    def fresh(self, r, spec, s):
        h = self.base(r)
        for z in h.zones:
            z.full = 1
        h.target = (h.zones[0], 0)
        self.size(h, r, spec, s)
        return h

    def bigreq(self, r, spec, s, hv):
        h = self.base(r)
        h.target = (h.zones[0], 0)
        if hv and h.free:
            b = h.free[0]
            b.size = (s + PAGE - 1) // PAGE * PAGE
            h.focus_big = b.addr
        else:
            h.free = []
            if hv:
                return None
            h.huge = True
        self.size(h, r, spec, s)
        return h

    def private(self, r, spec, C, at=None):
        for t in range(400):
            h = self.base(r, True)
            z = r.choice(h.zones)
            if z.C == C:
                break
        else:
            return None
        z.internal, z.tagged = 0, 1 if h.tagging else 0
        h.tk = z.i
        free = [n for n in range(min(z.slots, 2000)) if not h.bits(z, n) & 1]
        n = at % z.slots if at is not None else r.choice(free) if free else 0
        h.only = at is not None
        h.bitover[(z.i, n)] = 0
        h.target = (z, n)
        h.args[spec["zone"]] = z.addr ^ h.handle_mask
        return h

    # ---- everything else
    def other(self, spec):
        out = []
        for zp in ("first", "last"):
            for C in (32, 96, 1024, 8192, 65536):
                if C < 8192 and self.e == "iso_alloc_destroy_zone":
                    continue
                out.append((("zone", zp, C), lambda r, a=(zp, C): self.zoned(r, spec, *a)))
        return out

    def zoned(self, r, spec, zp, C):
        for t in range(400):
            h = self.base(r, True)
            z = h.zones[0 if zp == "first" else -1]
            if z.C == C:
                break
        else:
            return None
        z.internal, z.tagged = 0, 1 if h.tagging else 0
        h.tk = z.i
        h.qcount = 0
        h.target = (z, 0)
        if "zone" in spec:
            h.args[spec["zone"]] = z.addr ^ h.handle_mask
        if "p" in spec:
            h.args[spec["p"]] = h.chunk(z, 0)
        return h

    def served(self, h, block, status):
        for x in self.rets:
            h.over = {}
            for v in self.loops.nests(h, x):
                h.over = dict(v)
                if getattr(h, "huge", False):
                    self.nohuge(h)
                tr = Trial(h)
                if not tr.alive(x) and not tr.repair(x, self.rng, 14, frozen=self.loops.own):
                    continue
                tr = Trial(h)
                if block:
                    w = tr.ev(x.value) if x.value is not None else None
                    if status:
                        if w is not None and w & 0xffffffff:
                            continue
                    elif w == 0:
                        continue
                return True
        return False

    def nohuge(self, h):
        for t in range(3):
            tr = Trial(h)
            for c in self.maps:
                f = tr.ev(c.args[3])
                if f is not None and f & MAP_HUGETLB and all(tr.ev(y) != 0 for y in c.facts) and getattr(c, "ret", None) is not None:
                    h.over[c.ret] = M64

    def run(self):
        e, rep = self.e, self.rep
        cases = []
        block = status = 0
        if e in ALLOC:
            cases = self.allocs(ALLOC[e])
            block, status = 1, ALLOC[e].get("status")
        elif e in FREES and FREES[e]["p"] != 9:
            cases = self.frees(FREES[e])
        elif e in QUERY:
            cases = self.frees(QUERY[e], True)
        elif e in ANY:
            cases = self.other(ANY[e])
        elif e in TAGS:
            cases = self.other(TAGS[e])
        for key, make in cases:
            r = rng_for(self.seed, e, *map(str, key))
            tried, ok, last = 0, False, None
            for t in range(SALTS * TRIALS[self.tier] * (5 if key[0] == "new" else 1)):
                h = make(r)
                if h is None:
                    continue
                tried += 1
                if t % 3:
                    h.salt = r.getrandbits(60)
                h.exits = r.choice([4, 8, 14, 16])
                last = h
                if self.served(h, block, status):
                    ok = True
                    break
            if ok:
                rep.count("valid call served")
                rep.count("draws", tried)
                if os.environ.get("P22DBG"):
                    print("DRAWS", tried, e, key, file=sys.stderr)
            elif tried > 10:
                rep.violation("never-%s:%s" % (" ".join(map(str, key)), e), "%s %s: %s" % (e, "never returns a block" if block else "never returns", " ".join(map(str, key))),
                              self.rets[0].loc if self.rets else "", "", describe(last))
            else:
                rep.count("class not drawn")


def units(m, tier):
    return split([e for e in m.entries() if e in FREES or e in ALLOC or e in QUERY or e in ANY or e in TAGS], 8)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R())
        I.run(e)
        Check(I, rep, e, tier, seed).run()
        rep.functions |= I.stats["functions"]
        rep.count("entries")
