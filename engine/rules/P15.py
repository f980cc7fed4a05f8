from .heap import *

TITLE = "string duplication copies the whole string, terminates it and stays in bounds"
RULE = """Random interpretation of the dataflow states at every return of the string duplication entries together with the recorded memory effects, for
drawn strings (length, limit, zone): every byte of the result up to the shorter of string length and limit must last be written by a copy of the
same byte of the argument, the byte after it must be the terminator, all of it must lie inside the block allocated, and no copy may read past the
string's terminator or the limit."""
CONFIGS_QUICK = ["default", "release", "sanitize", "libc", "cpp", "nomask"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"string copied": 30}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)",
               "strlen, strnlen and memchr return what the C standard says for the drawn string"]
TRIALS = {"quick": 500, "thorough": 4000}
ENTRIES = {"iso_strdup": {"s": 0}, "iso_strdup_from_zone": {"zone": 0, "s": 1}, "iso_strndup": {"s": 0, "n": 1},
           "iso_strndup_from_zone": {"zone": 0, "s": 1, "n": 2}}


class R(HeapRule):
    traced = True

    def __init__(self, rep, entry, spec, trials, seed):
        self.rep, self.spec, self.trials, self.seed = rep, spec, trials, seed
        self.str = {}

    def event(self, I, st, ev):
        if ev.kind == "call" and ev.fn in ("strlen", "strnlen", "memchr", "__strlen_chk") and ev.ret is not None:
            self.str[ev.ret] = (ev.fn, ev.args)
        HeapRule.event(self, I, st, ev)

    def backedge(self, I, s, n):
        pass

    def make(self, I, r):
        spec = self.spec
        h, want, need = alloc_heap(I.mod, r, {"zone": spec["zone"]} if "zone" in spec else {})
        z = h.zones[h.tk]
        if want is not None and r.random() < .2:
            h.args[spec["zone"]], want = 0, None
        if want is None:
            z.internal, z.tagged = 1, 0
        C = z.C
        L = max(0, r.choice([0, 1, 2, 7, 8, 30, 31, 32, 33, 100, C - 2, C - 1, C - 1, C, C + 1, C // 2, 5000, 65535, 65536, 70000]))
        n = None
        if "n" in spec:
            n = max(0, r.choice([0, 1, L - 1, L, L + 1, L + 2, L // 2, 1 << 40, (1 << 64) - 1, C - 1, C]))
        S = 0x7ea000000000 + 8 * r.randrange(1 << 20)
        h.strs = [(S, L)]
        h.args[spec["s"]] = S
        if n is not None:
            h.args[spec["n"]] = n
        h.focus = [h.tk, h.tk, L]
        return h, want, S, L, n

    def resolve(self, tr, S, L):
        """give the string functions' results their standard values"""
        h = tr.h
        for ret, (fn, args) in self.str.items():
            a = tr.ev(args[0])
            if a is None:
                continue
            if not S <= a <= S + L:
                continue
            k = S + L - a
            if fn in ("strlen", "__strlen_chk"):
                h.over[ret] = k
            elif fn == "strnlen":
                h.over[ret] = min(k, tr.ev(args[1]) or 0)
            else:
                h.over[ret] = S + L if tr.ev(args[1]) == 0 and k < (tr.ev(args[2]) or 0) else 0
        tr.ev = type(tr.ev)(h)

    def v(self, I, key, msg, h, where=None):
        s, n = h.strs[0]
        self.rep.violation("%s:%s" % (key, I.entry), "%s %s" % (I.entry, msg), where or I.loc(), I.where(),
                           "string of %d bytes at 0x%x; " % (n, s) + describe(h))

    def final(self, I, st, what, value):
        if value is None:
            return
        rep = self.rep
        rep.site("return of a duplicated string", I.entry)
        r = rng_for(self.seed, I.entry, what)
        for t in range(self.trials):
            h, want, S, L, n = self.make(I, r)
            tr = Trial(h)
            tr.propagate(st)
            tr.use_bounds(st)
            self.resolve(tr, S, L)
            if not tr.alive(st):
                continue
            q = tr.ev(value)
            c = classify(h, q)
            k = c[0]
            rep.count("result " + k)
            if k not in ("zone", "big", "fresh"):
                continue
            m = L if n is None else min(L, n)
            room = c[1].C - c[2] % c[1].C if k == "zone" else c[1].size - c[2] if k == "big" else None
            if room is not None and room < m + 1:
                return self.v(I, "small", "returns a block of %d bytes for a string of %d and its terminator" % (room, m), h)
            if k == "zone" and want is not None and c[1] is not want:
                return self.v(I, "otherzone", "returns a chunk of zone %d although zone %d was asked for" % (c[1].i, want.i), h)
            if k == "zone" and want is None and not c[1].internal:
                return self.v(I, "private", "returns a chunk of private zone %d for an ordinary request" % c[1].i, h)
            ef = Effects(tr, I.trace, loops=True)
            for o in {0, m - 1, m // 2, min(m, 7), max(0, m - 8), m} | ({r.randrange(m)} if m else set()):
                if o < 0:
                    continue
                x = ef.content(q + o)
                ok = x is not None and (x[:2] == ("copy", S + o) and (o < m or m == L) or o == m and x[:2] == ("byte", 0))
                if x is not None and o < m and x[0] == "byte" and x[1] == h.read("unk", S + o, 8, 0) and x[1] is not None:
                    ok = True
                if not ok:
                    d = "nothing is written there" if x is None else "last written at %s (%s)" % (x[2].loc, x[0])
                    return self.v(I, "content" if o < m else "terminator", "%s: %s" % (
                        "does not copy byte %d of %d" % (o, m) if o < m else "does not terminate the copy of %d bytes" % m, d), h)
            end = S + (L + 1 if n is None else min(L + 1, n))
            for e, a, s in ef.ev:
                if e.kind == "memcpy" and s:
                    b = tr.ev(e.arg)
                    if b is not None and S <= b <= S + L + 1 and b + s > end and ef.certain(e):
                        return self.v(I, "overread", "reads %d bytes past the end of its argument" % (b + s - end), h, e.loc)
                if e.kind in ("store", "memset", "memcpy") and a is not None and s and room is not None and q <= a < q + room < a + s and ef.certain(e):
                    return self.v(I, "overrun", "writes past the end of the block it allocated", h, e.loc)
                if e.kind in ("store", "memset", "memcpy") and a is not None and s and q - 64 <= a < q and a + s > q - 8 and k == "zone" \
                        and a >= c[1].U + c[2] - 8 and ef.certain(e):
                    return self.v(I, "underrun", "writes before the block it allocated", h, e.loc)
            rep.count("string copied")


def units(m, tier):
    return split([e for e in m.entries() if e in ENTRIES], 4)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep, e, ENTRIES[e], TRIALS[tier], seed))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
