from .heap import *

TITLE = "zeroed allocations are zero"
RULE = """Random interpretation of the dataflow states at every return of the calloc entries together with the recorded memory effects: for the chunk
or recycled mapping returned, the last effect on the first byte, the last byte and random bytes of the requested range must be a store or fill of
zero (a loop's stores are followed to the iteration that reaches the byte).  Fresh anonymous mappings are zero."""
CONFIGS_QUICK = ["default", "release", "sanitize", "libc", "nocanary", "cpp"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"byte zeroed": 200}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "anonymous mappings start out zero"]
TRIALS = {"quick": 400, "thorough": 1200}
ENTRIES = {"iso_calloc": (0, 1), "calloc": (0, 1), "__libc_calloc": (0, 1)}


class R(HeapRule):
    traced = True

    def __init__(self, rep, entry, spec, trials, seed):
        self.rep, self.spec, self.trials, self.seed = rep, spec, trials, seed

    def backedge(self, I, s, n):
        pass

    def final(self, I, st, what, value):
        if value is None:
            return
        rep = self.rep
        rep.site("return of a zeroed allocation", I.entry)
        r = rng_for(self.seed, I.entry, what)
        for t in range(self.trials):
            h, want, need = alloc_heap(I.mod, r, {"size": self.spec[1], "n": self.spec[0]})
            if t % 3 == 0 and h.free:
                need = max(65537, r.choice(h.free).size - r.choice([0, 1, 100, 4000, 8000]))
                n = r.choice([1, 1, 2, 4])
                h.args[self.spec[1]] = need // n
                h.args[self.spec[0]] = n
                need = need // n * n
            tr = Trial(h)
            tr.propagate(st)
            if not tr.alive(st):
                continue
            p = tr.ev(value)
            c = classify(h, p)
            if c[0] not in ("zone", "big") or not need:
                continue
            ef = Effects(tr, I.trace, loops=True)
            for o in {0, need - 1, need // 2, min(need - 1, 7), min(need - 1, 8), max(0, need - 8), max(0, need - 9), r.randrange(need)}:
                x = ef.content(p + o)
                if x is None or x[0] != "byte" or x[1] != 0:
                    d = "nothing is written there" if x is None else "last written at %s%s" % (x[2].loc, " (%s %s)" % x[:2])
                    rep.violation("zero:%s" % I.entry, "%s returns memory whose byte %d of %d is not zeroed" % (I.entry, o, need), I.loc(),
                                  I.where(), d + "; " + describe(h))
                    return
                rep.count("byte zeroed")


def units(m, tier):
    return split([e for e in m.entries() if e in ENTRIES], 3)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, e, ENTRIES[e], TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
