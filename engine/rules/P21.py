from .heap import *
from .P16 import View

TITLE = "queries change nothing and stored zone pointers stay masked"
RULE = """Random interpretation of the dataflow states at every return and loop back edge, and a typestate analysis.  (A) Entries that only ask a question
(size, usage, leaks, verification, chunk count, naming, tags): every cell of the root (but its locks and random seed), of a zone, of its bitmap and of a
large allocation's record has the value it had on entry, and no store reaches chunk memory, the delayed frees or the lookup tables.  (B) Every entry, in
builds that mask pointers: a typestate per zone member follows which hold a real pointer at the moment, and the pointers to user pages and bitmap stored in a zone are never the real ones when the root lock is released or the call
returns."""
CONFIGS_QUICK = ["default", "release", "tagging", "profiler", "cpp"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"query changed nothing": 50, "pointers masked": 20, "unmasked": 20}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "a loop is one generic iteration"]
TRIALS = {"quick": 40, "thorough": 300}
QUERY = {"iso_chunksz": {"p": 0}, "malloc_usable_size": {"p": 0}, "malloc_size": {"p": 0}, "iso_alloc_mem_usage": {}, "iso_alloc_zone_mem_usage": {"zone": 0},
         "iso_alloc_detect_leaks": {}, "iso_alloc_detect_zone_leaks": {"zone": 0}, "iso_verify_zones": {}, "iso_verify_zone": {"zone": 0},
         "iso_zone_chunk_count": {"zone": 0}, "iso_alloc_name_zone": {"zone": 0}, "iso_alloc_tag_ptr": {"p": 0, "zone": 1}, "iso_alloc_untag_ptr": {"p": 0, "zone": 1},
         "iso_alloc_verify_ptr_tag": {"p": 0, "zone": 1}, "iso_alloc_get_mem_tag": {"p": 0, "zone": 1}}
TEARDOWN = {"iso_alloc_destroy", "iso_alloc_dtor"}
ROOTLOCK = ("root_busy_mutex", "root_busy_flag")
SPECS = dict(QUERY)
SPECS.update(FREES)
SPECS.update(ALLOCS)
SPECS.update({"iso_realloc": {"p": 0, "size": 1}, "iso_alloc_new_zone": {"size": 0}, "iso_alloc_destroy_zone": {"zone": 0}, "iso_strdup_from_zone": {"zone": 0},
              "iso_strndup_from_zone": {"zone": 0}, "realloc": {"p": 0, "size": 1}})
LOCKS = ("_mutex", "_flag", "seed", "root_busy")
PTRS = (ZT + ".user_pages_start", ZT + ".bitmap_start")


def draw(I, r, sp):
    h = Heap(I.mod, r, nz=r.choice([1, 2, 3]))
    h.exits = r.choice([8, 14, 16])
    z = r.choice(h.zones)
    h.tk = z.i
    n = r.choice([0, 1, 31, z.slots - 1, r.randrange(z.slots)]) % z.slots
    h.target = (z, n)
    h.bitover[(z.i, n)] = r.choice([0, 1, 1, 2, 3])
    if "zone" in sp:
        z.internal = 0
        z.tagged = 1 if h.tagging else 0
        h.args[sp["zone"]] = z.addr ^ h.handle_mask
    p = h.chunk(z, n)
    if h.used and r.random() < .3:
        b = r.choice(h.used)
        p = b.U
        h.focus_big = b.addr
    h.qval = p
    if "p" in sp and sp["p"] != 9:
        h.args[sp["p"]] = p
    if "size" in sp:
        h.args[sp["size"]] = r.choice([z.C, z.C, 1, 32, 1000, 9000, 100000])
    return h


class Part(object):
    def __init__(self, mem):
        self.mem = mem


class Masks(HeapRule):
    """typestate: the zone members that hold a real pointer right now"""
    init = frozenset()

    def __init__(self, rep, seed):
        self.rep, self.seed = rep, seed
        self.told, self.term, self.eq, self.pos = set(), {}, {}, {}

    def backedge(self, I, s, n):
        pass

    def same(self, I, a, b):
        """two terms for the address of one zone"""
        r = self.eq.get((a, b))
        if r is None:
            g = rng_for(self.seed, "same")
            r = True
            for t in range(4):
                h = Heap(I.mod, g, nz=3)
                z = g.choice(h.zones)
                h.target = (z, 0)
                h.tk = z.i
                for k in range(4):
                    h.args[k] = z.addr ^ h.handle_mask
                tr = Trial(h)
                x = tr.ev(a)
                r = r and x is not None and x == tr.ev(b)
            self.eq[(a, b)] = r
        return r

    def event(self, I, st, ev):
        if not I.mod.macros.get("MASK_PTRS") or I.entry in TEARDOWN:
            return
        if ev.kind == "store":
            cls, base, idx = I.resolve(ev.addr)
            if cls[0] != "F" or base is None or I.mod.clsname(cls) not in PTRS:
                return
            k = (I.mod.clsname(cls), base.id)
            self.term[base.id] = base
            k = next((x for x in sorted(st.auto) if x == k or x[0] == k[0] and self.same(I, self.term[x[1]], base)), k)
            self.rep.site("zone pointer stored", "%s %s" % (I.loc(), k[0]))
            on = self.real(I, ev.value, ev.old, k in st.auto)
            self.rep.count("masked" if not on else "unmasked")
            st.auto = st.auto | {k} if on else st.auto - {k}
        elif st.auto and (ev.kind == "ret" or ev.kind == "unlock" and ev.lock in ROOTLOCK):
            for f, b in sorted(st.auto):
                n = f.split(".")[1].replace("_start", "").replace("_", " ")
                k = "mask-%s:%s" % (n, I.entry)
                if k not in self.told and self.possible(I, st):
                    self.told.add(k)
                    self.rep.violation(k, "%s leaves the real %s pointer in a zone when it %s" % (I.entry, n, "returns" if ev.kind == "ret" else "releases the root lock"),
                                       I.loc(), I.where())
        elif ev.kind == "ret" or ev.kind == "unlock" and ev.lock in ROOTLOCK:
            self.rep.count("pointers masked")

    def possible(self, I, st):
        """no heap was found to refute the path so far"""
        k = (I.entry, st.facts if isinstance(st.facts, frozenset) else frozenset(st.facts))
        if k in self.pos:
            return self.pos[k]
        r = rng_for(self.seed, "possible")
        ok = False
        for t in range(40):
            h = draw(I, r, SPECS.get(I.entry, {}))
            tr = Trial(h)
            tr.propagate(st)
            tr.use_bounds(st)
            if tr.alive(st) or tr.repair(st, r, 8):
                ok = True
                break
        if not ok:
            self.rep.count("unmasked only on a path no heap takes")
        self.pos[k] = ok
        return ok

    def real(self, I, v, old, was):
        """does v hold a real pointer"""
        if v.op == "ite":
            return self.real(I, v.args[1], old, was) or self.real(I, v.args[2], old, was)
        if v.op == "leaf":
            if v.args[0] == "ld" and I.mod.clsname(v.args[2]) in PTRS:
                return False                         # as it was on entry
        elif v.op == "xor":
            if old is not None and old.op == "leaf" and old in v.args[1]:
                return not was
        r = rng_for(self.seed, "real")
        for t in range(3):
            h = Heap(I.mod, r, nz=2)
            h.target = (h.zones[0], 0)
            h.tk = 0
            x = Trial(h).ev(v)
            if x is not None and (h.is_fresh(x) or any(x in (z.U, z.B) for z in h.zones)):
                return True
        return False


class R(Masks):
    traced = True

    def __init__(self, rep, spec, trials, seed):
        Masks.__init__(self, rep, seed)
        self.spec, self.trials = spec, trials

    def event(self, I, st, ev):
        Masks.event(self, I, st, ev)
        if ev.kind == "ret":
            self.unchanged(I, st, "return")

    def backedge(self, I, s, n):
        self.unchanged(I, s, "loop", n)

    def unchanged(self, I, st, what, base=None):
        rep = self.rep
        rep.site("state of a query", "%s:%s@%s" % (I.entry, what, I.loc()))
        r = rng_for(self.seed, I.entry, what)
        for t in range(self.trials):
            h = draw(I, r, self.spec)
            tr = Trial(h)
            tr.propagate(st)
            if not tr.alive(st):
                continue
            bad = self.changes(I, tr, st, h, what, base)
            if bad:
                k = "change-%s:%s" % (bad[0], I.entry)
                if k not in self.told:
                    self.told.add(k)
                    rep.violation(k, "%s changes %s" % (I.entry, bad[1]), I.loc(), I.where(), describe(h))
                return
            rep.count("query changed nothing")

    def changes(self, I, tr, st, h, what, base):
        if base is not None:                  # only what the iteration itself changed
            st = Part({c: v for c, v in st.mem.items() if base.mem.get(c) is not v})
        V = View(tr, st, I)
        for (n, a, i), w in sorted(V.cells.items(), key=lambda x: x[0]):
            f = n.split(".")[1]
            if f.endswith(LOCKS) or h.is_fresh(a) or w is None:
                continue
            o = h.field(n.split(".")[0], f, a, i, 0, 64)
            if o is None:
                continue
            if w != o and w != o & ((1 << 32) - 1) and w != o & 0xffff and w != o & 0xff:
                return n, "%s of %s (0x%x -> 0x%x)" % (f.replace("_", " "), "the root" if n.startswith(ROOT) else "a zone", o, w)
        ch, other = bitmap_changes(tr, st, I)
        if ch:
            return "bitmap", "the state of chunk %d of a zone (%d -> %d)" % ch[0][1:]
        if any(o[0] == "foreign" for o in other):
            return "bitmap", "a bitmap word"
        mc = meta_changes(tr, st, I, BIGMETA | {BT + ".canary_a", BT + ".canary_b", BT + ".ttl"})
        if mc:
            return mc[0][0], "%s of a large allocation" % mc[0][0].split(".")[1]
        if what == "loop":
            return None
        ef = Effects(tr, I.trace, loops=True)
        for e, a, s in ef.ev:
            if a is None or e.kind not in ("store", "memset", "memcpy") or not ef.certain(e):
                continue
            w = None
            if h.Q <= a < h.Q + 8 * 64:
                w = "the delayed frees"
            elif h.CLT <= a < h.CLT + 2 * 65536:
                w = "the chunk lookup table"
            elif h.zone_of(a) is not None:
                w = "memory of a chunk"
            elif any(b.U <= a < b.U + b.size for b in h.used + h.free):
                w = "memory of a large allocation"
            if w and s and not (e.kind == "store" and srcaddr(tr, e.value) == a):
                return w, w
        return None


def units(m, tier):
    es = m.entries()
    return split([e for e in es if e in QUERY], 4) + split([e for e in es if e not in QUERY], 8)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, QUERY[e], TRIALS[tier], seed) if e in QUERY else Masks(rep, seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
