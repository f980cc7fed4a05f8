from .biglist import *
from .P11 import Check as Base, QUERIES, REALLOCS, NOW
from .P11 import R as TraceRule

TITLE = "a large allocation whose record is damaged is never used"
RULE = """Random interpretation of the dataflow states at releases of the big zone locks and at returns, loop variables at the values the loop
summaries reach: with either canary of a record damaged (its own or an earlier one's on the list), no state of a free, size query or reallocation of
it, of an allocation that would recycle it, or of a verification of all zones returns normally or changes the lists; every new record carries the
canary of its address, mapping and the process secret at both ends."""
CONFIGS_QUICK = ["default", "release", "nomask", "cpp"]
CONFIGS_THOROUGH = [c for c in ALL if c != "nothreads"]
MIN_COUNTS = {"damaged record refuted": 100, "undamaged record accepted": 20, "new record sealed": 10}
ASSUMPTIONS = ["heap invariants of the drawn heaps (both lists well formed, records distinct)"]
TRIALS = {"quick": 12, "thorough": 120}
ENDS = ("canary_a", "canary_b")


class Check(Base):
    def __init__(self, I, rep, e, tier, seed):
        Base.__init__(self, I, rep, e, tier, seed)
        self.n = TRIALS[tier]
        self.rets = [x for x in I.trace if x.kind == "ret"]

    def at(self, h, evs):
        h.over = {}
        for x in evs:
            for v in self.loops.nests(h, x):
                h.over = dict(v)
                self.now = (h, x)
                yield x
        h.over = {}

    def fail(self, key, msg, b, end, x, h):
        self.rep.violation("%s:%s" % (key, self.e), "%s %s although its record is damaged (%s)" % (self.e, msg, end), x.loc, "in " + x.fn_here,
                           "record 0x%x; used list: %s; free list: %s" % (b.addr, [hex(y.addr) for y in h.used], [hex(y.addr) for y in h.free]))

    def draw(self, r, p):
        h = self.heap(r)
        i = r.randrange(len(h.used))
        b = h.used[i]
        h.qval = b.U
        h.qcount = 64
        h.args[p] = b.U
        return h, b, i

    def named(self, p, spec, kind):
        """free, query or reallocation of a large allocation"""
        r = rng_for(self.seed, self.e, "named")
        now = kind == "query" or kind == "free" and self.e in NOW and not self.I.mod.macros.get("ALLOC_SANITY")
        for t in range(self.n):
            h, b, i = self.draw(r, p)
            if "size" in spec:
                h.args[spec["size"]] = b.size
            if spec.get("n") is not None:
                h.args[spec["n"]] = 1
            good = t % 4 == 0
            end = r.choice(ENDS)
            if not good:
                h.bigcorrupt.add((b, end))
            ok = True
            if kind != "query":
                rest = [y.addr for y in h.used if y is not b]
                for x, view in self.states(h, "used"):
                    got = view.walk("used")
                    if not self.same(rest, got) or not self.possible():
                        continue
                    if good:
                        self.rep.count("undamaged record accepted")
                        break
                    self.fail("unlink", "takes a large allocation off the used list", b, end, x, h)
                    return
            if now:
                for x in self.at(h, self.rets):
                    if not self.possible():
                        continue
                    if good:
                        self.rep.count("undamaged record accepted")
                        break
                    self.fail("return", "returns normally from a %s of a large allocation" % ("free" if kind == "free" else "query"), b, end, x, h)
                    return
            if not good:
                self.rep.count("damaged record refuted")

    def alloc(self, spec):
        r = rng_for(self.seed, self.e, "alloc")
        for t in range(self.n * 2):
            h = self.heap(r)
            if not h.free:
                continue
            b = r.choice(h.free)
            if "size" in spec:
                h.args[spec["size"]] = b.size
            if "n" in spec:
                h.args[spec["n"]] = 1
            good = t % 4 == 0
            end = r.choice(ENDS)
            if not good:
                h.bigcorrupt.add((b, end))
            for x, view in self.states(h, "used"):
                got = view.walk("used")
                if not got or b.addr not in got or not self.possible():
                    continue
                if good:
                    self.rep.count("undamaged record accepted")
                    break
                self.fail("recycle", "recycles a large allocation", b, end, x, h)
                return
            if not good:
                self.rep.count("damaged record refuted")

    def fresh(self, spec):
        r = rng_for(self.seed, self.e, "fresh")
        for t in range(self.n // 2):
            h = self.heap(r)
            h.free[:] = []
            if "size" in spec:
                h.args[spec["size"]] = r.choice([70000, 1 << 20])
            if "n" in spec:
                h.args[spec["n"]] = 1
            for x, view in self.states(h, "used"):
                got = view.walk("used")
                new = [a for a in got or () if isinstance(a, int) and h.is_fresh(a)]
                if len(new) != 1:
                    continue
                a = new[0]
                U = view.get(BT + ".user_pages_start", a)
                if not U:
                    continue
                want = (a ^ scen.bs64(U) ^ h.big_secret) & M64
                for end in ENDS:
                    v = view.get(BT + "." + end, a)
                    if v != want and self.possible():
                        self.rep.violation("new:%s" % self.e, "%s puts a new record on the used list whose %s is not valid" % (self.e, end), x.loc,
                                           "in " + x.fn_here, "record 0x%x mapping 0x%x: %s" % (a, U, v if v is None else hex(v)))
                        return
                self.rep.count("new record sealed")

    def verify(self):
        r = rng_for(self.seed, self.e, "verify")
        for which in ("used", "free"):
            for t in range(self.n):
                h = self.heap(r)
                l = getattr(h, which)
                if not l:
                    continue
                b = r.choice(l)
                good = t % 4 == 0
                end = r.choice(ENDS)
                if not good:
                    h.bigcorrupt.add((b, end))
                for x in self.at(h, self.rets):
                    if good:
                        self.rep.count("undamaged record accepted")
                        break
                    if not self.possible():
                        continue
                    self.fail("verify-" + which, "returns normally with a large allocation on the %s list" % which, b, end, x, h)
                    return
                if not good:
                    self.rep.count("damaged record refuted")


def units(m, tier):
    return split([e for e in m.entries() if e in FREES and "zone" not in FREES[e] or e in ALLOCS and "zone" not in ALLOCS[e] or
                  QUERIES.get(e) is not None or e in REALLOCS or e == "iso_verify_zones"], 6)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, TraceRule())
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
        c = Check(I, rep, e, tier, seed)
        for x in c.evs + c.rets:
            rep.site("release of a list lock or return", "%s@%s" % (x.fn_here, x.loc))
        if e in FREES:
            c.named(FREES[e]["p"], FREES[e], "free")
        elif e in ALLOCS:
            c.alloc(ALLOCS[e])
            c.fresh(ALLOCS[e])
        elif e in REALLOCS:
            p, k, s = REALLOCS[e]
            c.named(p, {"n": k, "size": s}, "realloc")
        elif e == "iso_verify_zones":
            c.verify()
        else:
            c.named(QUERIES[e], {}, "query")
