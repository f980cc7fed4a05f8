from .cover import *
from .P16 import View

TITLE = "freed chunks are wiped, and only they are"
RULE = """Random interpretation of the dataflow states and recorded effects at every return of the deallocation entries and of the flush of delayed
frees: under a drawn heap in which the chunk changes from live to freed on the way, the last effect on every sampled byte of the chunk (both ends, the
canary words and random positions) is the wipe byte or the chunk's canary - in builds that wipe chunks for every free, in every build for a permanent
free - and no effect covers the bytes next to the chunk."""
CONFIGS_QUICK = ["default", "sanitize", "tagging", "nocanary", "permrealloc", "cpp-release"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"wiped": 40}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)"]
TRIALS = {"quick": 80, "thorough": 800}
FLUSH = {"iso_flush_caches": {}, "iso_free": {"p": 0}}
MOVE = {"iso_realloc": {"p": 0, "to": 1}, "realloc": {"p": 0, "to": 1}, "__libc_realloc": {"p": 0, "to": 1}}
WIPE = 0xde


def macro(I, n):
    v = I.mod.macros.get(n, 0)
    return bool(v) and v != "0"


class F(HeapRule):
    traced = True

    def __init__(self, rep, entry, spec, trials, seed, flush):
        self.rep, self.spec, self.trials, self.seed, self.flush = rep, spec, trials, seed, flush

    def backedge(self, I, s, n):
        if self.flush:
            HeapRule.backedge(self, I, s, n)

    def v(self, I, key, msg, h):
        self.rep.violation("%s:%s" % (key, I.entry), "%s %s" % (I.entry, msg), I.loc(), I.where(), describe(h))

    def heap(self, I, r):
        spec = self.spec
        if not self.flush:
            h = free_heap(I.mod, r, spec, "good")
            h.qcount = r.choice([0, 1, 5])
            if "to" in spec:
                h.args[spec["to"]] = r.choice([h.target[0].C + 1, 65537, 100000])
        else:
            h = Heap(I.mod, r, nz=r.choice([1, 2, 3]))
            z = r.choice(h.zones)
            z.tagged = 0
            n = r.choice([0, 31, 32, z.slots - 1, r.randrange(z.slots)]) % z.slots
            h.target, h.tk = (z, n), z.i
            h.bitover[(z.i, n)] = 1
            h.qcount = QSZ if spec else r.choice([1, 2, 5, 63, 64])
            h.qval = h.chunk(z, n)
            if spec:
                y = h.zones[0]
                h.args[spec["p"]] = h.chunk(y, y.slots - 1)
        z, n = h.target
        z.live = r.choice([3, 7, 20])
        z.allocs = 3
        return h

    def final(self, I, st, what, value):
        rep, spec = self.rep, self.spec
        if not self.flush and ("p" not in spec or spec["p"] == 9):
            return
        if not macro(I, "SANITIZE_CHUNKS") and not ("perm" in spec or "to" in spec and macro(I, "PERM_FREE_REALLOC")):
            return
        rep.site("return of a free", I.entry)
        r = rng_for(self.seed, I.entry, what)
        hits = 0
        for t in range(self.trials * 2):
            h = self.heap(I, r)
            z, n = h.target
            p = h.chunk(z, n)
            tr = Trial(h)
            tr.propagate(st)
            if not tr.alive(st):
                continue
            ef = Effects(tr, I.trace)
            ch, other = bitmap_changes(tr, st, I)
            if not any(x is z and j == n for (x, j, o, w) in ch):
                v = tr.ev(value) if value is not None else None
                if "to" in spec and macro(I, "PERM_FREE_REALLOC") and v not in (0, None, p):
                    self.v(I, "kept", "moves a chunk of %d bytes and does not free the old one permanently" % z.C, h)
                    return
                rep.count("not freed now")
                continue
            can = (z.secret ^ p) & ~0xff & M64
            offs = {0, 7, 8, 15, 16, z.C - 1, z.C - 8, z.C - 9, z.C // 2} | {r.randrange(z.C) for _ in range(4)}
            for o in sorted(offs):
                c = ef.content(p + o)
                if c is None:
                    self.v(I, "left", "frees a chunk of %d bytes and leaves byte %d as it was" % (z.C, o), h)
                    return
                if c[0] == "byte":
                    ok = {WIPE}
                    for b in (0, z.C - 8):
                        if b <= o < b + 8:
                            ok.add(can >> 8 * (o - b) & 0xff)
                    if c[1] not in ok:
                        self.v(I, "left", "frees a chunk of %d bytes and leaves 0x%x in byte %d" % (z.C, c[1], o), h)
                        return
                elif c[0] == "copy":
                    self.v(I, "left", "frees a chunk of %d bytes and copies byte %d from elsewhere" % (z.C, o), h)
                    return
                else:
                    rep.count("content unknown")
            for o in (-1, z.C, -8, z.C + 7):
                if z.U <= p + o < z.U + z.slots * z.C:
                    c = ef.content(p + o)
                    if c is not None:
                        self.v(I, "next", "frees a chunk of %d bytes and writes its byte %d" % (z.C, o), h)
                        return
            rep.count("wiped by a flush" if self.flush else "wiped")
            hits += 1
            if hits > 40:
                return


def units(m, tier):
    return split([e for e in m.entries() if e in FREES and FREES[e]["p"] != 9], 4) + [[e] for e in m.entries() if e in MOVE] + [["+" + e] for e in m.entries() if e in FLUSH]


QSZ = 64


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        f = e.startswith("+")
        e = e.lstrip("+")
        if e not in m.funcs:
            continue
        I = Interp(m, F(rep, e, FLUSH[e] if f else FREES[e] if e in FREES else MOVE[e], TRIALS[tier], seed, f))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
