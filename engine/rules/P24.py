from .heap import *
from . import P21

TITLE = "NULL pointers, strings and zone handles are harmless"
RULE = """Random interpretation of the dataflow states of every public entry that takes a pointer to memory of the allocator, a string or a zone handle,
with NULL passed for each of them in turn: at every memory access, call of a memory or string primitive, and abort, no state that the drawn heap does
not refute has an address in the first page or aborts; each heap leaves some return; the value returned is 0; and (rule A of P21) no cell of the root, a zone, its
bitmap or a large allocation's record, the delayed frees or user memory differs from its value on entry."""
CONFIGS_QUICK = ["default", "release", "tagging", "abortnull", "cpp", "profiler"]
CONFIGS_THOROUGH = ALL
MIN_COUNTS = {"NULL accepted": 30, "access checked": 100}
ASSUMPTIONS = ["heap invariants of the drawn heaps (zone geometry, masks, list links)", "a loop is one generic iteration"]
TRIALS = {"quick": 8, "thorough": 60}
# entry: (arguments of a valid call, which of them NULL is passed for, the value returned then)
NULLS = {e: (dict(s), [k for k in ("p", "zone") if k in s and s[k] != 9], None) for e, s in FREES.items()}
NULLS.update({
    "iso_chunksz": ({"p": 0}, ["p"], 0), "malloc_usable_size": ({"p": 0}, ["p"], 0), "malloc_size": ({"p": 0}, ["p"], 0),
    "iso_zone_chunk_count": ({"zone": 0}, ["zone"], 0), "iso_alloc_name_zone": ({"zone": 0, "str": 1}, ["zone"], 0),
    "iso_alloc_zone_mem_usage": ({"zone": 0}, ["zone"], 0), "iso_alloc_detect_zone_leaks": ({"zone": 0}, ["zone"], 0),
    "iso_verify_zone": ({"zone": 0}, ["zone"], None), "iso_alloc_destroy_zone": ({"zone": 0}, ["zone"], None),
    "iso_alloc_from_zone": ({"zone": 0}, ["zone"], 0), "iso_alloc_from_zone_tagged": ({"zone": 0}, ["zone"], 0),
    "iso_alloc_tag_ptr": ({"p": 0, "zone": 1}, ["p", "zone"], 0), "iso_alloc_untag_ptr": ({"p": 0, "zone": 1}, ["p", "zone"], 0),
    "iso_alloc_verify_ptr_tag": ({"p": 0, "zone": 1}, ["p", "zone"], None), "iso_alloc_get_mem_tag": ({"p": 0, "zone": 1}, ["p", "zone"], 0),
    "iso_strdup": ({"str": 0}, ["str"], 0), "iso_strndup": ({"str": 0, "size": 1}, ["str"], 0),
    "iso_strdup_from_zone": ({"zone": 0, "str": 1}, ["str"], 0), "iso_strndup_from_zone": ({"zone": 0, "str": 1, "size": 2}, ["str"], 0)})
STR = 0x7ffd00001000


class R(P21.R):
    def __init__(self, rep, spec, which, value, trials, seed):
        P21.R.__init__(self, rep, spec, trials, seed)
        self.which, self.want, self.served, self.heaps = which, value, set(), None

    def draws(self, I):
        if self.heaps is None:
            r = rng_for(self.seed, I.entry, "null" + self.which)
            self.heaps = []
            for t in range(self.trials):
                h = P21.draw(I, r, self.spec)
                if "str" in self.spec:
                    h.args[self.spec["str"]] = STR
                h.args[self.spec[self.which]] = 0
                self.heaps.append((h, Trial(h)))
        return self.heaps

    def v(self, I, key, msg, h):
        k = "%s-%s:%s" % (key, self.which, I.entry)
        if k not in self.told:
            self.told.add(k)
            self.rep.violation(k, "%s given a NULL %s %s" % (I.entry, {"p": "pointer", "zone": "zone handle", "str": "string"}[self.which], msg),
                               I.loc(), I.where(), describe(h))

    def possible(self, st, tr):
        h = tr.h
        t = Trial(h)
        t.propagate(st)
        return t.alive(st)

    def event(self, I, st, ev):
        if ev.kind in ("load", "store", "memset", "memcpy"):
            self.access(I, st, ev)
        elif ev.kind == "call":
            for n, a in enumerate(ev.args):
                if ev.fn in ("strlen", "memchr", "strnlen", "memcmp", "strcmp") and n < (2 if "cmp" in ev.fn else 1):
                    for h, tr in self.draws(I):
                        if tr.ev(a) == 0 and self.possible(st, tr):
                            self.v(I, "deref", "passes it to %s" % ev.fn, h)
                            return
        elif ev.kind == "abort":
            for h, tr in self.draws(I):
                if self.possible(st, tr):
                    self.v(I, "abort", "aborts", h)
                    return
        elif ev.kind == "ret":
            for h, tr in self.draws(I):
                h.over = {}
                t = Trial(h)
                t.propagate(st)
                if not t.alive(st):
                    continue
                self.served.add(id(h))
                if self.want is not None:
                    w = t.ev(ev.value) if ev.value is not None else None
                    if w is not None and w != self.want:
                        self.v(I, "value", "returns 0x%x" % w, h)
                        return
                bad = self.changes(I, t, st, h, "return", None)
                if bad:
                    self.v(I, "change", "changes " + bad[1], h)
                    return
                self.rep.count("NULL accepted")

    def access(self, I, st, ev):
        for a in (ev.addr,) + ((ev.arg,) if ev.kind == "memcpy" else ()):
            if is_c(a):
                continue
            self.rep.count("access checked")
            for h, tr in self.draws(I):
                v = tr.ev(a)
                if v is not None and (v < PAGE or self.which == "zone" and 0 <= v - h.handle_mask < PAGE) and self.possible(st, tr):
                    if ev.kind in ("memset", "memcpy") and tr.ev(ev.n) == 0:
                        continue
                    self.v(I, "deref", "accesses address 0x%x" % v, h)
                    return

    def backedge(self, I, s, n):
        pass


def units(m, tier):
    return split([e + ":" + w for e in m.entries() if e in NULLS for w in NULLS[e][1]], 6)


def analyse(m, unit, rep, tier, seed):
    for u in unit:
        e, w = u.split(":")
        if e not in m.funcs:
            continue
        sp, ws, val = NULLS[e]
        rule = R(rep, sp, w, val, TRIALS[tier], seed)
        I = Interp(m, rule)
        I.run(e)
        rep.site("NULL argument", u)
        left = [h for h, tr in rule.draws(I) if id(h) not in rule.served]
        if left and not rule.told:
            rep.violation("never-%s:%s" % (w, e), "%s does not return when given a NULL %s" % (e, w), e, "", describe(left[0]))
        rep.functions |= I.stats["functions"]
        rep.count("entries")
