from .heap import *

TITLE = "requests that cannot be met are refused"
RULE = """Random interpretation of the dataflow states at every return of every allocation entry, with request sizes above the largest allocation,
sizes that wrap around when rounded up, and element counts whose product with the size overflows: the heap and arguments must refute every state that
returns a pointer (or, for posix_memalign, success), or that changed the state of a chunk or a list of large allocations.  A request just inside the
limit must not be refuted."""
CONFIGS_QUICK = ["default", "release", "tagging", "sanity", "abortnull", "cpp", "strongiso"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"request refused": 200, "reasonable request met": 10}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "a loop is one generic iteration"]
TRIALS = {"quick": 60, "thorough": 600}
BIG_MAX = 1 << 32
ENTRIES = {
    "iso_alloc": {"size": 0}, "iso_calloc": {"n": 0, "size": 1}, "iso_realloc": {"size": 1, "p": 0}, "iso_reallocarray": {"n": 1, "size": 2, "p": 0},
    "malloc": {"size": 0}, "calloc": {"n": 0, "size": 1}, "realloc": {"size": 1, "p": 0}, "reallocarray": {"n": 1, "size": 2, "p": 0},
    "__libc_malloc": {"size": 0}, "__libc_calloc": {"n": 0, "size": 1}, "__libc_realloc": {"size": 1, "p": 0},
    "__libc_reallocarray": {"n": 1, "size": 2, "p": 0}, "memalign": {"size": 1, "align": 0}, "aligned_alloc": {"size": 1, "align": 0},
    "__libc_memalign": {"size": 1, "align": 0}, "posix_memalign": {"size": 2, "align": 1, "status": 1},
    "__posix_memalign": {"size": 2, "align": 1, "status": 1}, "libc_malloc": {"size": 0}, "libc_realloc": {"size": 1, "p": 0},
    "libc_memalign": {"size": 1, "align": 0}, "_Znwm": {"size": 0}, "_Znam": {"size": 0}, "_ZnwmRKSt9nothrow_t": {"size": 0},
    "_ZnamRKSt9nothrow_t": {"size": 0}, "_ZnwmSt11align_val_t": {"size": 0, "align": 1}, "_ZnamSt11align_val_t": {"size": 0, "align": 1},
    "_ZnwmSt11align_val_tRKSt9nothrow_t": {"size": 0, "align": 1}, "_ZnamSt11align_val_tRKSt9nothrow_t": {"size": 0, "align": 1},
    "iso_alloc_new_zone": {"size": 0, "zone": 1},
}


def too_big(r, n):
    """(count, size) whose product no allocation can hold"""
    k = r.randrange(6)
    if k == 0:
        s = M64 - r.choice([0, 1, 7, 15, 30, 31, 32, 63, 4094, 4095, 4096, 8190, 65535])
    elif k == 1:
        s = (1 << r.randrange(33, 64)) + r.choice([0, 1, 31, 32, 65536]) & M64
    elif k == 2:
        s = BIG_MAX + r.choice([1, 2, 4095, 4096, 4097, 65536])
    elif k == 3:
        s = r.choice([1 << 63, (1 << 63) - 1, (1 << 63) + 1])
    elif k == 4:
        s = r.randrange(BIG_MAX + 1, M64)
    else:
        s = M64 - r.randrange(1 << 17)
    if not n:
        return None, s
    k = r.randrange(6)
    if k == 0:
        return r.choice([1, 1, 2, 3, 32, 1 << 16, 1 << 32, M64]), s
    if k == 1:
        return s, r.choice([1, 2, 3, 32, 33, 48, 1 << 16, 1 << 32, M64])
    if k == 2:                                  # the product wraps to something small
        b = r.randrange(1, 63)
        return (1 << b) + r.choice([0, 0, 1, 2]), (1 << (64 - b)) + r.choice([0, 0, 32, 64, 1])
    if k == 3:
        b = r.randrange(5, 28)
        return (1 << (32 - b)) + 1, (1 << b) + r.choice([0, 32]) if r.random() < .5 else 1 << (b + 1)
    if k == 4:
        a = r.choice([3, 5, 7, 32, 96, 1000])
        return ((1 << 64) + a - 1) // a, a
    return r.randrange(1 << 20, 1 << 40), r.randrange(1 << 24, 1 << 40)


class R(HeapRule):
    def __init__(self, rep, entry, spec, trials, seed):
        self.rep, self.spec, self.trials, self.seed = rep, spec, trials, seed

    def backedge(self, I, s, n):
        pass

    def final(self, I, st, what, value):
        if value is None:
            return
        rep, sp = self.rep, self.spec
        rep.site("return of an allocation", I.entry)
        r = rng_for(self.seed, I.entry, what)
        met = 0
        for t in range(self.trials * 2):
            h = Heap(I.mod, r, nz=r.choice([1, 2, 3]))
            z = r.choice(h.zones)
            h.tk = z.i
            h.target = (z, r.randrange(z.slots))
            good = t >= self.trials
            if good:
                n, s = 1, r.choice([1, 31, 64, 1000, 65536, 65537, 1 << 20])
                if "zone" in sp:
                    s = min(s, 65536)
            else:
                n, s = too_big(r, "n" in sp)
                if "zone" in sp and r.random() < .5:
                    n, s = None, 65536 + r.choice([1, 32, 4096])
                if n is not None and n * s <= BIG_MAX:
                    continue
            h.args[sp["size"]] = s
            if "n" in sp:
                h.args[sp["n"]] = n
            if "align" in sp:
                h.args[sp["align"]] = r.choice([8, 16, 64, 4096])
            if "p" in sp:
                h.args[sp["p"]] = r.choice([0, h.chunk(*h.target)])
                h.bitover[(z.i, h.target[1])] = 1
            tr = Trial(h)
            tr.propagate(st)
            alive = tr.alive(st)
            if not alive:
                if not good:
                    rep.count("request refused")
                continue
            v = tr.ev(value)
            ok = v == 0 if "status" in sp else v != 0
            if good:
                if ok:
                    rep.count("reasonable request met")
                    met += 1
                    if met > 3:
                        break
                continue
            what_ = "%s%d bytes" % ("%d times " % n if n is not None else "", s)
            if ok:
                rep.violation("met:%s" % I.entry, "%s does not refuse a request for %s" % (I.entry, what_), I.loc(), I.where(),
                              "returns %s; %s" % (v if v is None else hex(v), describe(h)))
                return
            ch, other = bitmap_changes(tr, st, I)
            mc = [m for m in meta_changes(tr, st, I, BIGMETA) if m[0] in (ROOT + ".big_zone_used", ROOT + ".big_zone_free", BT + ".free")]
            if ch or mc:
                rep.violation("changed:%s" % I.entry, "%s refuses a request for %s but changes %s" %
                              (I.entry, what_, "chunk %d of zone %d: %d -> %d" % (ch[0][1], ch[0][0].i, ch[0][2], ch[0][3]) if ch else mc[0][0]),
                              I.loc(), I.where(), describe(h))
                return
            rep.count("request refused")


def units(m, tier):
    return split([e for e in m.entries() if e in ENTRIES], 3)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, e, ENTRIES[e], TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
