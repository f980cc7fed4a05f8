from .heap import *

TITLE = "freeing a pointer the allocator did not hand out aborts"
RULE = """Random interpretation of the interprocedural dataflow states of every deallocation entry: at every return and loop back edge the
path facts and the final values of all allocation-bitmap and big-allocation metadata cells are evaluated under randomly drawn heaps in which
the freed (or quarantined) pointer is outside every zone and big allocation, inside a guard page or metadata, or not at a chunk boundary.
A state that such a heap does not refute may not have changed any metadata cell."""
CONFIGS_QUICK = ["default", "release", "tagging", "nomask", "sanity", "cpp"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"good pointer accepted": 10, "bad pointer refuted": 100}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "a loop is one generic iteration"]
TRIALS = {"quick": 100, "thorough": 600}
# these act on the chunk before they return: a bad pointer must abort the call itself
IMMEDIATE = {"iso_free_permanently", "iso_free_size", "iso_free_from_zone", "iso_free_from_zone_permanently"}
CLASSES = ["outside", "misaligned", "elsewhere"]


class R(HeapRule):
    traced = True

    def __init__(self, rep, entry, spec, trials, seed, classes):
        self.rep, self.spec, self.trials, self.seed, self.classes = rep, spec, trials, seed, classes

    def final(self, I, st, what, value):
        rep = self.rep
        now = I.entry in IMMEDIATE and what == "return" and not I.mod.macros.get("ALLOC_SANITY")      # samples are not modelled
        if not now and not any(self.wanted(I, c) for c in st.mem):
            return
        rep.site("state with metadata writes", "%s:%s@%s" % (I.entry, what, I.loc()))
        for cls in ["good"] + self.classes:
            r = rng_for(self.seed, I.entry, cls, what)
            for t in range(self.trials):
                h = free_heap(I.mod, r, self.spec, cls)
                if h is None:
                    continue
                tr = Trial(h)
                tr.propagate(st)
                alive = tr.alive(st)
                rep.count("heaps evaluated")
                if not alive:
                    if cls != "good":
                        rep.count("bad pointer refuted")
                    continue
                ch, other = bitmap_changes(tr, st, I)
                other = [o for o in other if o[0] == "foreign"]
                mc = meta_changes(tr, st, I, BIGMETA)
                if cls == "good":
                    if ch:
                        rep.count("good pointer accepted")
                    continue
                rep.count("bad pointer, nothing changed" if not (ch or mc or other) else "bad pointer accepted")
                if now and not (ch or mc or other):
                    rep.violation("ignored-%s:%s" % (cls, I.entry), "%s returns normally when given a bad pointer (%s)" % (I.entry, cls), I.loc(), I.where(), describe(h))
                    break
                if ch or mc or other:
                    self.bad(I, st, cls, what, h, ch, mc, other)
                    break

    def bad(self, I, st, cls, what, h, ch, mc, other):
        d = "; ".join("chunk %d of zone %d: %d -> %d" % (n, z.i, o, w) for z, n, o, w in ch[:3]) + "; ".join("%s at 0x%x: %s -> %s" % m for m in mc[:4])
        d += "".join("; writes a bitmap word at 0x%x, outside every bitmap" % o[1] for o in other[:2])
        self.rep.violation("%s:%s" % (cls, I.entry), "%s accepts a%s pointer and changes metadata (%s)" %
                           (I.entry, {"outside": "n outside", "elsewhere": "nother zone's"}.get(cls, " " + cls), d), I.loc(), I.where(), describe(h))


    def pending(self, I):
        """an iteration that processes a delayed free must not survive a bad pointer: a loop whose iteration frees a good pointer"""
        rep = self.rep
        loops = {}
        for e in I.trace:
            if e.kind == "backedge":
                loops.setdefault(e.loop, []).append(e)
        for L, es in loops.items():
            es = [e for e in es if e.nest and e.nest[0] == L]
            if not any(c[0] == ("R", "bitmap") for e in es for c in e.s.mem):
                continue
            r = rng_for(self.seed, I.entry, "pending")
            works = False
            for t in range(self.trials):
                h = free_heap(I.mod, r, self.spec, "good")
                tr = Trial(h)
                z, n = h.target
                for e in es:
                    tr.propagate(e.s)
                    if tr.alive(e.s) and any(y is z and m == n for y, m, o, w in bitmap_changes(tr, e.s, I)[0]):
                        works = True
                if works:
                    break
            if not works:
                continue
            rep.site("loop over delayed frees", "%s@%s" % (I.entry, es[0].loc))
            for cls in self.classes:
                if cls == "elsewhere":
                    continue
                for t in range(self.trials):
                    h = free_heap(I.mod, r, self.spec, cls)
                    if h is None:
                        continue
                    for e in es:
                        tr = Trial(h)
                        tr.propagate(e.s)
                        if tr.alive(e.s):
                            rep.violation("pending-%s:%s" % (cls, I.entry), "%s steps over a delayed free of a chunk that is bad (%s) without aborting" %
                                          (I.entry, cls), e.loc, "", describe(h))
                            return
                        rep.count("bad delayed free refuted")


def units(m, tier):
    return split([e for e in m.entries() if e in FREES], 3)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, e, FREES[e], TRIALS[tier], seed, CLASSES))
        I.run(e)
        I.rule.pending(I)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
