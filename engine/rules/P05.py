from .heap import *
from . import P04

TITLE = "freeing a chunk that is not currently allocated aborts"
RULE = """Random interpretation of the interprocedural dataflow states of every deallocation entry: at every return and loop back edge the
path facts and the final values of all allocation-bitmap and big-allocation metadata cells are evaluated under randomly drawn heaps in which the
freed (or quarantined) pointer is a chunk already freed, never allocated, or sealed (a canary chunk or permanently freed), or a big
allocation whose record says it is already free.  A state such a heap does not refute may not have changed any metadata cell."""
CONFIGS_QUICK = ["default", "release", "tagging", "nomask", "sanity", "cpp"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"good pointer accepted": 10, "bad pointer refuted": 100, "good big accepted": 4}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "a loop is one generic iteration"]
TRIALS = {"quick": 60, "thorough": 500}
CLASSES = ["double", "never", "sealed"]
WORD = {"double": "n already freed", "never": " never allocated", "sealed": " canary or permanently freed"}


class R(P04.R):
    def final(self, I, st, what, value):
        P04.R.final(self, I, st, what, value)
        self.big(I, st, what)

    def bad(self, I, st, cls, what, h, ch, mc, other):
        d = "; ".join("chunk %d of zone %d: %d -> %d" % (n, z.i, o, w) for z, n, o, w in ch[:3])
        self.rep.violation("%s:%s" % (cls, I.entry), "%s accepts a%s chunk and changes metadata (%s)" % (I.entry, WORD[cls], d),
                           I.loc(), I.where(), describe(h))

    def big(self, I, st, what):
        rep = self.rep
        if "zone" in self.spec or not any(c[0][0] == "F" and I.mod.clsname(c[0]) in BIGMETA for c in st.mem):
            return
        rep.site("state with big metadata writes", "%s:%s" % (I.entry, what))
        for cls in ("good", "flagged", "onfree"):
            r = rng_for(self.seed, I.entry, cls, what, "big")
            for t in range(self.trials * 2):
                h = Heap(I.mod, r, nz=2, nb=r.choice([1, 2, 3]))
                if not h.used:
                    continue
                b = r.choice(h.used)
                if cls == "flagged":
                    b.free = 1
                elif cls == "onfree":
                    if not h.free:
                        continue
                    b = r.choice(h.free)
                h.target = (h.zones[0], 0)
                h.args[self.spec["p"]] = b.U
                h.qval = b.U
                if "size" in self.spec:
                    h.args[self.spec["size"]] = r.choice([b.size, 65537, 65536, 100])
                tr = Trial(h)
                tr.propagate(st)
                if not tr.alive(st):
                    if cls != "good":
                        rep.count("bad pointer refuted")
                    continue
                mc = [m for m in meta_changes(tr, st, I, BIGMETA) if m[0] in (ROOT + ".big_zone_used", ROOT + ".big_zone_free", BT + ".free",
                                                                               BT + ".next")]
                if cls == "good":
                    if mc:
                        rep.count("good big accepted")
                    continue
                if mc and any(m[0] != BT + ".next" or cls != "onfree" for m in mc):
                    rep.violation("big-%s:%s" % (cls, I.entry), "%s accepts a big allocation that is already free and changes %s" %
                                  (I.entry, ", ".join(m[0] for m in mc[:3])), I.loc(), I.where(),
                                  "big allocation 0x%x record 0x%x, %d in use, %d free" % (b.U, b.addr, len(h.used), len(h.free)))
                    break


def units(m, tier):
    return P04.units(m, tier)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, e, FREES[e], TRIALS[tier], seed, CLASSES))
        I.run(e)
        I.rule.pending(I)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
