from .biglist import *
from .P11 import R as TraceRule

TITLE = "sizes reported for allocations are exact and sized frees are checked"
RULE = """Random interpretation of the dataflow states at every return of the entries that report the size of an allocation or take one when freeing
it.  A query about a chunk returns its zone's chunk size, about a large allocation its recorded size, about NULL or the zero-size page 0, and a pointer
that is neither in a zone nor the start of a large allocation refutes every return.  A sized free with a size larger than the chunk or large
allocation, or a size other than 0 for the zero-size page, refutes every return; one with a size that fits does not."""
CONFIGS_QUICK = ["default", "release", "tagging", "nomask", "cpp", "spinlock"]
CONFIGS_THOROUGH = [c for c in ALL if c != "sanity"]      # sampled allocations have their own sizes
MIN_COUNTS = {"size of a chunk": 10, "size of a large allocation": 5, "no allocation: size 0": 5, "bad pointer refuted": 20, "size too large refuted": 20,
              "size that fits accepted": 10}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "a loop is one generic iteration"]
TRIALS = {"quick": 80, "thorough": 800}
QUERY = {"iso_chunksz": 0, "malloc_usable_size": 0, "malloc_size": 0, "malloc_good_size": 0}
SIZED = {"iso_free_size": (0, 1), "_ZdlPvm": (0, 1), "_ZdaPvm": (0, 1)}
QCLASS = ["chunk", "large", "null", "zero", "bad"]
SCLASS = ["chunk ok", "chunk too large", "large ok", "large too large", "zero ok", "zero too large"]


class R(TraceRule):
    trace_more = ("ret",)


class Check(object):
    def __init__(self, I, rep, entry, trials, seed):
        self.I, self.rep, self.trials, self.seed, self.name = I, rep, trials, seed, entry
        self.rng = rng_for(seed, entry + ":repair")
        self.loops = Loops(I)
        self.rets = [x for x in I.trace if x.kind == "ret"]
        for x in self.rets:
            rep.site("return", "%s@%s" % (entry, x.loc))

    def heap(self, I, r, cls):
        h = Heap(I.mod, r, nz=r.choice([1, 2, 3, 4]))
        z = r.choice(h.zones)
        h.tk = z.i
        n = r.choice([0, 1, 31, 32, z.slots - 1, r.randrange(z.slots)]) % z.slots
        h.target = (z, n)
        h.bitover[(z.i, n)] = 1
        for y in h.zones:
            y.live = max(3, y.live)
        b = r.choice(h.used) if h.used else None
        return h, z, n, b

    def accept(self, I, h):
        """returns of the states this heap does not refute"""
        for x in self.rets:
            h.over = {}
            for v in self.loops.nests(h, x):
                h.over = dict(v)
                tr = self.loops.alive(h, x, self.rng)
                if tr is not None:
                    yield tr, x.value, x.loc, "in " + x.fn_here
        h.over = {}

    def v(self, key, msg, loc, where, h):
        self.rep.violation("%s:%s" % (key, self.name), "%s %s" % (self.name, msg), loc, where, describe(h))

    def query(self, I):
        rep = self.rep
        pa = QUERY[self.name]
        for cls in QCLASS:
            r = rng_for(self.seed, self.name, cls)
            seen = tried = 0
            for t in range(self.trials):
                h, z, n, b = self.heap(I, r, cls)
                want = None
                if cls == "chunk":
                    p, want = h.chunk(z, n), z.C
                elif cls == "large":
                    if b is None:
                        continue
                    p, want = b.U, b.size
                    h.focus_big = b.addr
                elif cls == "null":
                    p, want = 0, 0
                elif cls == "zero":
                    if not macro(I, "NO_ZERO_ALLOCATIONS"):
                        continue
                    p, want = h.ZERO, 0
                else:
                    h = free_heap(I.mod, r, {"p": pa}, "outside")
                    if h is None:
                        continue
                    p = h.args[pa]
                    if h.args[pa] == h.ZERO:
                        continue
                h.args[pa] = h.qval = p
                tried += 1
                ok = True
                for tr, value, loc, where in self.accept(I, h):
                    if cls == "bad":
                        self.v("bad", "returns a size for 0x%x, which is no allocation" % p, loc, where, h)
                        return
                    got = tr.ev(value)
                    if got != want:
                        if got is None:
                            rep.count("unknown size")
                            continue
                        self.v(cls, "returns %d for a %s of %d bytes" % (got, {"chunk": "chunk", "large": "large allocation"}.get(cls, "pointer to an allocation"), want),
                               loc, where, h)
                        return
                    seen += 1
                    rep.count({"chunk": "size of a chunk", "large": "size of a large allocation"}.get(cls, "no allocation: size 0"))
                if cls == "bad":
                    rep.count("bad pointer refuted")
            if cls != "bad" and tried > 10 and not seen:
                self.v("never-" + cls, "never returns the size of a %s" % {"chunk": "chunk", "large": "large allocation", "null": "NULL pointer",
                                                                         "zero": "zero sized allocation"}[cls], self.rets[0].loc if self.rets else "", "", h)

    def sized(self, I):
        rep = self.rep
        pa, sa = SIZED[self.name]
        for cls in SCLASS:
            r = rng_for(self.seed, self.name, cls)
            groups = {}
            big = cls.startswith("large")
            good = cls.endswith("ok")
            for t in range(self.trials * (2 if good else 1)):
                h, z, n, b = self.heap(I, r, cls)
                if good and r.random() < .15:
                    while z.C != 65536:
                        h, z, n, b = self.heap(I, r, cls)
                if big:
                    if b is None:
                        continue
                    p, have = b.U, b.size
                    h.focus_big = b.addr
                    lo = 65537
                elif cls.startswith("zero"):
                    if not macro(I, "NO_ZERO_ALLOCATIONS"):
                        continue
                    p, have, lo = h.ZERO, 0, 0
                else:
                    p, have, lo = h.chunk(z, n), z.C, 0
                if good:
                    s = max(lo, r.choice([have, have, have, have - 1, have // 2, 1, 0]))
                    if s > have:
                        continue
                else:
                    s = r.choice([have + 1, have + 8, have + 16, have + 32, have * 2, have + PAGE, 65536, 65537, 100000, 1 << 20, 1 << 32, M64, 1 << 63])
                    s &= M64
                    if s <= have:
                        continue
                h.args[pa] = h.qval = p
                h.args[sa] = s
                hit = False
                for k in range(10 if good else 1):
                    if k:
                        h.salt = r.getrandbits(60)
                    for tr, value, loc, where in self.accept(I, h):
                        if good:
                            hit = True
                            break
                        self.v(cls.replace(" ", "-"), "returns normally when a %s of %d bytes is freed with size %d" %
                               ("large allocation" if big else "chunk", have, s), loc, where, h)
                        return
                    if hit:
                        rep.count("size that fits accepted")
                        break
                if not good:
                    rep.count("size too large refuted")
                if good:
                    g = groups.setdefault((s == have, s == 0, have == 65536), [0, 0, s, have])
                    g[0] += 1
                    g[1] += hit
            for k, (tried, seen, s, have) in groups.items():
                if tried > 5 and not seen:
                    self.v("never-" + cls.replace(" ", "-"), "never returns from the free of a %s of %d bytes with size %d" %
                           ("large allocation" if big else "chunk", have, s), self.rets[0].loc if self.rets else "", "", h)
                    return


def macro(I, n):
    v = I.mod.macros.get(n, 0)
    return bool(v) and v != "0"


def units(m, tier):
    return split([e for e in m.entries() if e in QUERY or e in SIZED], 2)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R())
        I.run(e)
        c = Check(I, rep, e, TRIALS[tier], seed)
        c.query(I) if e in QUERY else c.sized(I)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
