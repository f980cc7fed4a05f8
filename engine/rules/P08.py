from .heap import *

TITLE = "free chunks carry canaries that are checked on free and reallocation"
RULE = """Random interpretation of the interprocedural dataflow states of every allocation and deallocation entry.  (A) at the return of an accepted
free the last writes to the first and last eight bytes of the chunk are the zone's canary; (B) a heap whose chunk is free but whose leading or
trailing canary is damaged refutes every state that hands the chunk out; (C) a heap in which the chunk before or after the freed one is free or
sealed and has a damaged canary refutes every state in which the free was carried out."""
CONFIGS_QUICK = ["default", "release", "tagging", "nomask", "cpp"]
CONFIGS_THOROUGH = [c for c in ALL if c not in ("sanitize", "nocanary")]
MIN_COUNTS = {"canary written": 50, "damaged neighbour refuted": 50, "undamaged neighbour accepted": 20, "damaged chunk refuted": 50,
              "undamaged chunk returned": 10}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "a loop is one generic iteration"]
TRIALS = {"quick": 32, "thorough": 400}


class F(HeapRule):
    traced = True

    def __init__(self, rep, entry, spec, trials, seed):
        self.rep, self.spec, self.trials, self.seed = rep, spec, trials, seed

    def final(self, I, st, what, value):
        rep = self.rep
        if not any(c[0] == ("R", "bitmap") for c in st.mem):
            return
        rep.site("state after a free", "%s:%s@%s" % (I.entry, what, I.loc()))
        self.written(I, st, what)
        for side in (1, -1):
            for end in (0, 1):
                for state in (2, 3):
                    self.neighbour(I, st, what, side, end, state)

    def heap(self, I, r):
        h = free_heap(I.mod, r, self.spec, "good")
        z, n = h.target
        z.live = r.choice([1, 2, 7, z.count])
        z.allocs = r.choice([1, z.count])                   # the zone is not retired
        return h, z, n

    def written(self, I, st, what):
        rep = self.rep
        r = rng_for(self.seed, I.entry, what, "written")
        for t in range(self.trials):
            h, z, n = self.heap(I, r)
            tr = Trial(h)
            tr.propagate(st)
            if not tr.alive(st):
                continue
            ch, other = bitmap_changes(tr, st, I)
            new = [w for (y, m, o, w) in ch if y is z and m == n]
            if not new or not new[0] & 2:
                continue
            p = h.chunk(z, n)
            ef = Effects(tr, I.trace)
            for a, wh in ((p, "start"), (p + z.C - 8, "end")):
                v, e = ef.last(a, 8)
                if v != h.canary(z, p):
                    rep.violation("written-%s:%s" % (wh, I.entry), "%s frees a chunk without leaving a valid canary at its %s (%s)" %
                                  (I.entry, wh, "nothing written" if v is None else "last write at %s leaves %s" % (e.loc, v if v == "?" else hex(v))),
                                  I.loc(), I.where(), describe(h))
                    return
                rep.count("canary written")

    def neighbour(self, I, st, what, side, end, state):
        rep = self.rep
        r = rng_for(self.seed, I.entry, what, side, end, state)
        for t in range(self.trials):
            h, z, n = self.heap(I, r)
            m = n + side
            if not 0 <= m < z.slots:
                continue
            h.bitover[(z.i, m)] = state
            bad = t % 4 != 0
            q = h.chunk(z, m)
            for k in (n - 1, n + 1):
                if k != m:
                    h.bitover[(z.i, k)] = 1
            if bad:
                h.corrupt.add(q + (z.C - 8 if end else 0))
            tr = Trial(h)
            tr.propagate(st)
            alive = tr.alive(st)
            rep.count("heaps evaluated")
            if not alive:
                if bad:
                    rep.count("damaged neighbour refuted")
                continue
            ch, other = bitmap_changes(tr, st, I)
            if not [1 for (y, k, o, w) in ch if y is z and k == n]:
                continue
            if not bad:
                rep.count("undamaged neighbour accepted")
                continue
            rep.violation("neighbour:%s" % I.entry, "%s frees a chunk although the canary at the %s of the %s chunk %s it is damaged" %
                          (I.entry, "end" if end else "start", "sealed" if state == 3 else "free", "after" if side > 0 else "before"),
                          I.loc(), I.where(), describe(h))
            return


class A(HeapRule):
    def __init__(self, rep, entry, spec, trials, seed):
        self.rep, self.spec, self.trials, self.seed = rep, spec, trials, seed

    def backedge(self, I, s, n):
        pass

    def final(self, I, st, what, value):
        if value is None:
            return
        rep = self.rep
        rep.site("return of an allocation", I.entry)
        for end in (0, 1, None):
            r = rng_for(self.seed, I.entry, what, end or 7)
            for t in range(self.trials * 3):
                h, want, need = alloc_heap(I.mod, r, self.spec)
                z, n = h.target
                if h.bits(z, n) & 1:
                    continue
                h.bitover[(z.i, n)] = 2
                p = h.chunk(z, n)
                if end is not None:
                    h.corrupt.add(p + (z.C - 8 if end else 0))
                tr = Trial(h)
                tr.propagate(st)
                rep.count("heaps evaluated")
                if not tr.alive(st):
                    if end is not None:
                        rep.count("damaged chunk refuted")
                    continue
                v = tr.ev(value)
                if v is None or v & ((1 << 56) - 1) != p:
                    continue
                if end is None:
                    rep.count("undamaged chunk returned")
                    continue
                rep.violation("alloc:%s" % I.entry, "%s returns a free chunk although the canary at its %s is damaged" %
                              (I.entry, "end" if end else "start"), I.loc(), I.where(), describe(h))
                return


def units(m, tier):
    return split([e for e in m.entries() if e in FREES or e in ALLOCS], 6)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        if e in FREES:
            I = Interp(m, F(rep, e, FREES[e], TRIALS[tier], seed))
        else:
            I = Interp(m, A(rep, e, ALLOCS[e], TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
