from .heap import *

TITLE = "an allocation is at least as big as asked and comes from the right zone"
RULE = """Random interpretation of the interprocedural dataflow states of every allocation entry under randomly drawn heaps and request sizes: the
chunk returned must be at least as big as the request; a request without a zone must not be served from a private zone, a request from a private zone
must be served from exactly that zone, and a freshly mapped large allocation must be mapped with at least the requested length."""
CONFIGS_QUICK = ["default", "release", "tagging", "nomask", "cpp", "smallmem"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"chunk returned": 100, "mapping returned": 4}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "a loop is one generic iteration"]
TRIALS = {"quick": 250, "thorough": 1500}


class R(HeapRule):
    def __init__(self, rep, entry, spec, trials, seed):
        self.rep, self.spec, self.trials, self.seed = rep, spec, trials, seed
        self.maps = {}

    def event(self, I, st, ev):
        if ev.kind == "call" and ev.fn in ("mmap", "mmap64") and ev.ret is not None:
            self.maps[ev.ret] = ev.args[1]
        HeapRule.event(self, I, st, ev)

    def v(self, I, key, msg, h):
        self.rep.violation("%s:%s" % (key, I.entry), "%s %s" % (I.entry, msg), I.loc(), I.where(), describe(h))

    def backedge(self, I, s, n):
        pass

    def near_big(self, I, r):
        """a request a little more or less than a free large allocation"""
        h = Heap(I.mod, r, nz=1, nb=r.choice([1, 2]))
        h.target = (h.zones[0], 0)
        n = 100000
        if h.free:
            n = r.choice(h.free).size + r.choice([1, 31, 32, 4095, 4096, 4097, 8191, 8192, 12288, 16384, 20480, 65536, 1 << 20, 0, -1, -4096, -8192])
        n = max(65537, n)
        h.args[self.spec["size"]] = n
        if "n" in self.spec:
            h.args[self.spec["n"]] = 1
        return h, None, n

    def final(self, I, st, what, value):
        if value is None:
            return
        rep = self.rep
        rep.site("return of an allocation", I.entry)
        r = rng_for(self.seed, I.entry, what)
        for t in range(self.trials + (120 if "size" in self.spec else 0)):
            if t < self.trials:
                h, want, need = alloc_heap(I.mod, r, self.spec)
            else:
                h, want, need = self.near_big(I, r)
            tr = Trial(h)
            tr.propagate(st)
            if not tr.alive(st):
                continue
            p = tr.ev(value)
            c = classify(h, p)
            k = c[0]
            if k == "zone":
                z = c[1]
                rep.count("chunk returned")
                if z.C < need:
                    self.v(I, "small", "returns a %d byte chunk for a request of %d bytes" % (z.C, need), h)
                    break
                if want is not None and z is not want:
                    self.v(I, "otherzone", "returns a chunk of zone %d although zone %d was asked for" % (z.i, want.i), h)
                    break
                if want is None and not z.internal:
                    self.v(I, "private", "returns a chunk of private zone %d for an ordinary request" % z.i, h)
                    break
            elif k == "big":
                rep.count("recycled mapping returned")
                if c[1].size - c[2] < need or want is not None:
                    self.v(I, "bigsmall", "returns a recycled large allocation of %d bytes for a request of %d" % (c[1].size, need), h)
                    break
            elif k == "fresh":
                for m, ln in self.maps.items():
                    a = h.fresh.get(m)
                    n = tr.ev(ln)
                    if a is None or n is None or not a <= p < a + 0x20000000:
                        continue
                    rep.count("mapping returned")
                    if n - (p - a) < need:
                        self.v(I, "mapsmall", "returns a mapping of %d bytes for a request of %d" % (n - (p - a), need), h)
                        break


def units(m, tier):
    return split([e for e in m.entries() if e in ALLOCS], 2)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, e, ALLOCS[e], TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
