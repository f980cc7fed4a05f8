"""Scenario classes shared by the heap properties (random interpretation)."""
import random
from .common import *
import scen
from terms import kids
from scen import Heap, Trial, bitmap_changes, M64, PAGE, ZONE, ROOT, ZT, BT

# how each public entry receives the chunk it frees: pointer index, then what the other arguments are
FREES = {
    "iso_free": {"p": 0}, "iso_free_permanently": {"p": 0, "perm": 1}, "iso_free_size": {"p": 0, "size": 1},
    "iso_free_from_zone": {"p": 0, "zone": 1}, "iso_free_from_zone_permanently": {"p": 0, "zone": 1, "perm": 1},
    "iso_flush_caches": {"p": 9},
    "free": {"p": 0}, "__libc_free": {"p": 0}, "libc_free": {"p": 0},
    "_ZdlPv": {"p": 0}, "_ZdaPv": {"p": 0}, "_ZdlPvm": {"p": 0, "size": 1}, "_ZdaPvm": {"p": 0, "size": 1},
    "_ZdlPvRKSt9nothrow_t": {"p": 0}, "_ZdaPvRKSt9nothrow_t": {"p": 0}, "_ZdlPvSt11align_val_t": {"p": 0}, "_ZdaPvSt11align_val_t": {"p": 0},
    "_ZdlPvSt11align_val_tRSt9nothrow_t": {"p": 0}, "_ZdaPvSt11align_val_tRSt9nothrow_t": {"p": 0},
}
ALLOCS = {
    "iso_alloc": {"size": 0}, "iso_calloc": {"n": 0, "size": 1}, "iso_alloc_from_zone": {"zone": 0}, "iso_alloc_from_zone_tagged": {"zone": 0},
    "malloc": {"size": 0}, "calloc": {"n": 0, "size": 1}, "__libc_malloc": {"size": 0}, "__libc_calloc": {"n": 0, "size": 1},
    "libc_malloc": {"size": 0}, "_Znwm": {"size": 0}, "_Znam": {"size": 0}, "_ZnwmRKSt9nothrow_t": {"size": 0},
    "_ZnamRKSt9nothrow_t": {"size": 0},
}


class HeapRule(Rule):
    """hands every observable state (return, loop back edge, lock release)
    of an entry to check(I, st, what)"""
    init = None

    def event(self, I, st, ev):
        if ev.kind == "ret":
            self.final(I, st, "return", ev.value)

    def backedge(self, I, s, n):
        # only iterations that changed something of interest: the others leave
        # the loop through a state that is looked at later
        if any(self.wanted(I, c) and n.mem.get(c) is not v for c, v in s.mem.items()):
            self.final(I, s, "loop", None)

    def wanted(self, I, c):
        return c[0] in (("R", "bitmap"), ("R", "unk")) or (c[0][0] == "F" and I.mod.clsname(c[0]) in BIGMETA)

    def final(self, I, st, what, value):
        pass


def size_for(r, h, z, kind="any"):
    """a requested size"""
    b = [0, 1, 8, 15, 16, 31, 32, 33, z.C, z.C - 1, z.C + 1, z.C // 2, 1024, 1025, 4096, 65535, 65536, 65537, 100000, 4194304, 1 << 32, (1 << 32) + 1]
    return r.choice(b)


def meta_changes(tr, st, I, names):
    """cells of the named members whose final value differs from the heap's"""
    out = []
    for (cls, base, idx), v in list(st.mem.items()):
        if cls[0] != "F" or base is None:
            continue
        n = I.mod.clsname(cls)
        if n not in names:
            continue
        a = tr.ev(base)
        if a is None or tr.h.is_fresh(a):
            continue
        new = tr.ev(v)
        ix = 0
        if idx is not None:
            ix = tr.ev(idx)
            if ix is None:
                continue
        old = tr.h.field(cls[1], n.split(".")[1], a, ix, 0, v.w)
        if old is not None and new is not None:
            old &= (1 << v.w) - 1
        if new != old:
            out.append((n, a, old, new))
    return out


BIGMETA = {ROOT + ".big_zone_used", ROOT + ".big_zone_free", BT + ".next", BT + ".free", BT + ".size", BT + ".user_pages_start",
           ROOT + ".big_zone_used_count", ROOT + ".big_zone_free_count"}


def free_heap(mod, r, spec, cls):
    """heap + arguments for freeing a pointer of class cls; returns None when the class does not exist for this entry"""
    h = Heap(mod, r, nz=r.choice([1, 2, 3, 4]))
    z = r.choice(h.zones)
    if "zone" in spec:
        for y in h.zones:
            y.internal = y.internal if y is not z else 0
        z.internal = 0
        z.tagged = 1 if h.tagging else 0
    h.tk = z.i
    n = r.choice([0, 1, 31, 32, z.slots - 1, r.randrange(z.slots)])
    n %= z.slots
    h.target = (z, n)
    p = h.chunk(z, n)
    st = 1
    if cls == "misaligned":
        off = r.choice([8, 16, z.C - 8, z.C // 2, 8 * r.randrange(1, z.C // 8), 1, 4])
        if off % z.C == 0:
            off = 8
        if off & 7:
            off = (off & ~7) or 8
        p += off
        st = r.choice([1, 1, 1, 0, 2])
    elif cls == "double":
        st = 2
    elif cls == "never":
        st = 0
    elif cls == "sealed":
        st = 3
    elif cls == "elsewhere":
        if "zone" not in spec or h.nz < 2:
            return None
        y = r.choice([y for y in h.zones if y is not z])
        p = h.chunk(y, r.choice([0, 1, y.count - 1]))
        h.bitover[(y.i, (p - y.U) // y.C)] = 1
    elif cls == "outside":
        b = r.choice(h.used) if h.used else None
        k = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8])
        if k == 0:
            p = z.U + ZONE + z.C * r.randrange(0, 3)
        elif k == 1:
            p = z.U - r.choice([8, z.C, PAGE])
        elif k == 2 and b:
            p = b.U + r.choice([8, PAGE, b.size - 8, b.size // 2])
        elif k == 3 and b:
            p = b.U + b.size + r.choice([0, 8])
        elif k == 4:
            p = z.B & ~7
        elif k == 5:
            p = z.addr
        elif k == 6:
            p = h.R0 + 8 * r.randrange(100)
        elif k == 7:
            p = 0x1000 + 8 * r.randrange(1 << 20)
        else:
            p = (0x7f3000000000 + 8 * r.randrange(1 << 36)) & ~7
        if h.zone_of(p) is not None or any(p == x.U for x in h.used + h.free):
            return None
    if cls in ("good", "double", "never", "sealed", "misaligned"):
        h.bitover[(z.i, n)] = st
    h.args[spec["p"]] = p
    h.qval = p
    if "zone" in spec:
        h.args[spec["zone"]] = z.addr ^ h.handle_mask
    if "size" in spec:
        h.args[spec["size"]] = r.choice([z.C, z.C, z.C // 2, 1, 0]) if cls == "good" else r.choice([z.C, z.C // 2, 1, 65536, 65537, 200000])
    return h


def describe(h, extra=""):
    z, n = h.target
    return ("heap: zone %d at 0x%x, chunk size %d, %d chunks, user pages 0x%x; chunk %d at 0x%x state %d; pointer 0x%x; %s"
            % (z.i, z.addr, z.C, z.count, z.U, n, h.chunk(z, n), h.bits(z, n), h.qval or 0, extra))


def rng_for(seed, *k):
    return random.Random(scen.h64(seed, *k))


def alloc_heap(mod, r, spec, size=None):
    """heap + arguments for an allocation; returns (heap, zone asked for or None, bytes asked for)"""
    h = Heap(mod, r, nz=r.choice([1, 2, 3, 4]))
    if r.random() < .4:
        h.free = []
    z = r.choice(h.zones)
    want = None
    h.tk = z.i
    if "zone" in spec:
        z.internal = 0
        z.tagged = 1 if h.tagging else 0
        h.args[spec["zone"]] = z.addr ^ h.handle_mask
        want = z
    elif r.random() < .8:
        z.internal = 1
        z.tagged = 0
    if r.random() < .8:
        z.full = 0
    free = [n for n in range(min(z.slots, 2000)) if not h.bits(z, n) & 1]
    if free:
        h.target = (z, r.choice(free))
    else:
        h.target = (z, r.randrange(z.slots))
    if r.random() < .15:
        h.bitover[(z.i, h.target[1])] = r.choice([1, 3, 3])       # a stale cache that names a chunk in use or sealed
    n = None
    if "size" in spec:
        n = size if size is not None else r.choice([size_for(r, h, z), z.C, z.C])
        h.args[spec["size"]] = n
        if "n" in spec:
            k = r.choice([1, 1, 2, 3, 10])
            h.args[spec["n"]] = k
            n = n * k
    return h, want, n if n is not None else z.C


def srcaddr(tr, v):
    while v.op in ("zext", "trunc"):
        v = v.args[0]
    if v.op == "leaf" and v.args[0] == "rd":
        return tr.ev(v.args[1])
    return None


def deep_loops(ts):
    """loop variables in terms, including those inside the addresses of reads"""
    r, seen, todo = [], set(), list(ts)
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "leaf":
            if y.args[0] == "loop":
                r.append(y)
            todo += [z for z in y.args if hasattr(z, "op")]
        else:
            todo += kids(y)
    return sorted(r, key=lambda x: x.id)


class Effects(object):
    """the memory effects of a run of an entry under one heap: the recorded
    effects whose path facts the heap does not refute, in program order"""

    def __init__(self, tr, trace, loops=False, left=False):
        self.tr = tr
        self.loops = loops          # also effects of iterations other than the one the loop variables stand for
        self.left = left            # also the iteration a loop was left in, for effects on the way out
        self.ev = []
        self.affine = {}
        for e in trace:
            if e.kind in ("backedge", "exit"):
                continue
            if any(tr.ev(f) == 0 for f in e.facts) and not (loops and e.kind in ("store", "memset", "memcpy") and (e.nest or left)):
                continue
            if e.kind == "call":
                self.ev.append((e, None, None))
                continue
            a = tr.ev(e.addr)
            n = e.size if e.kind == "store" else tr.ev(e.n)
            self.ev.append((e, a, n))

    def certain(self, e):
        return all(self.tr.ev(f) == 1 for f in e.facts)

    def last(self, addr, w):
        """value last written to the w bytes at addr: None nothing, '?' unknown
        (partial or unknown content), else the number"""
        for e, a, n in reversed(self.ev):
            if a is None or n is None:
                continue
            if a + n <= addr or a >= addr + w:
                continue
            if e.kind == "store":
                v = self.tr.ev(e.value)
                if v is None or a > addr or a + n < addr + w:
                    return "?", e
                return (v >> (8 * (addr - a))) & ((1 << (8 * w)) - 1), e
            if e.kind == "memset":
                b = self.tr.ev(e.arg)
                if b is None or a > addr or a + n < addr + w:
                    return "?", e
                return int.from_bytes(bytes([b & 0xff]) * w, "little"), e
            return "?", e
        return None, None

    def content(self, addr):
        """what the run leaves in the byte at addr: (kind, value, event) of the
        last effect that can have written it - kind "byte", "copy" (value: the
        address copied from), "?" - or None"""
        for e, a, n in reversed(self.ev):
            if e.kind == "call":
                continue
            if e.nest and self.steps(e):
                r = self.in_loop(e, addr)
            elif self.loops and not self.possible(e):
                continue
            else:
                r = self.one(self.tr, e, a, n, addr)
            if r is not None:
                return r + (e,)
        return None

    def one(self, tr, e, a, n, addr):
        if a is None or n is None or not a <= addr < a + n:
            return None
        if e.kind == "store":
            v = tr.ev(e.value)
            s = srcaddr(tr, e.value)
            if s is not None:
                return "copy", s + addr - a
            return ("?", None) if v is None else ("byte", (v >> (8 * (addr - a))) & 0xff)
        if e.kind == "memset":
            b = tr.ev(e.arg)
            return ("?", None) if b is None else ("byte", b & 0xff)
        s = tr.ev(e.arg)
        return ("?", None) if s is None else ("copy", s + addr - a)

    def steps(self, e):
        """the counters of the loops around an effect that its address moves with"""
        if self.left:
            ls = getattr(e, "steps_left", None)
            if ls is None:
                ls = e.steps_left = [x for x in deep_loops([e.addr]) if x.step and x.init is not None]
            return ls
        ls = getattr(e, "steps", None)
        if ls is None:
            ls = [x for x in deep_loops([e.addr]) if x.step and x.init is not None and (x.args[1], x.args[2]) in e.nest]
            if ls:
                ls = [x for x in deep_loops(list(e.facts) + [e.addr] + [y for y in (e.value if e.kind == "store" else e.arg,) if y is not None])
                      if x.step and x.init is not None and (x.args[1], x.args[2]) in e.nest]
            e.steps = ls
        return ls

    def possible(self, e, limit=10):
        """some iteration of the loops its path facts speak of allows the effect"""
        bad = [f for f in e.facts if self.tr.ev(f) == 0]
        if not bad:
            return True
        ls = [x for x in deep_loops(bad) if x.step and x.init is not None]
        init = {x: self.tr.ev(x.init) for x in ls}
        if not ls or None in init.values():
            return False
        h, save = self.tr.h, self.tr.h.over
        try:
            for k in range(limit):
                t = self.at(ls, init, k)
                h.over = t.over
                if all(t.ev(f) != 0 for f in bad):
                    return True
            return False
        finally:
            h.over = save

    def at(self, ls, init, k):
        h = self.tr.h
        save = h.over
        h.over = dict(save)
        for x in ls:
            h.over[x] = (init[x] + k * x.step) & ((1 << x.w) - 1)
        t = Trial(h)
        t.over = h.over
        h.over = save
        return t

    def in_loop(self, e, addr):
        """the iteration of the loops around a store that reaches addr, if any"""
        h = self.tr.h
        ls = self.steps(e)
        if e not in self.affine:
            init = {x: self.tr.ev(x.init) for x in ls}
            r = None
            if None not in init.values():
                save = h.over
                av = []
                for k in (0, 1):
                    t = self.at(ls, init, k)
                    h.over = t.over
                    av.append(t.ev(e.addr))
                h.over = save
                if None not in av and av[0] != av[1]:
                    d = av[1] - av[0]
                    r = init, av[0], d - (1 << 64) if d >> 63 else d
                elif None not in av:
                    r = "still"                  # the same address in every iteration
            self.affine[e] = r
        r = self.affine[e]
        if r is None:
            return None
        if r == "still":
            if any(self.tr.ev(f) == 0 for f in e.facts):
                return None
            return self.one(self.tr, e, self.tr.ev(e.addr), e.size if e.kind == "store" else self.tr.ev(e.n), addr)
        init, a0, d = r
        k = (addr - a0) // d
        m = e.size if e.kind == "store" else 1 << 40
        save = h.over
        try:
            for kk in (k, k - 1, k + 1):
                if kk < 0 or not a0 + kk * d <= addr < a0 + kk * d + m:
                    continue
                tr = self.at(ls, init, kk)
                h.over = tr.over
                if any(tr.ev(f) == 0 for f in e.facts):
                    continue
                r = self.one(tr, e, tr.ev(e.addr), e.size if e.kind == "store" else tr.ev(e.n), addr)
                if r is not None:
                    return r
            return None
        finally:
            h.over = save

    def calls(self, *names):
        return [(e, [self.tr.ev(x) for x in e.args]) for e, a, n in self.ev if e.kind == "call" and e.fn in names]


def classify(h, p):
    """what a pointer value denotes in the heap"""
    if p is None:
        return ("unknown",)
    if p == 0:
        return ("null",)
    if p == h.ZERO:
        return ("zero",)
    if h.is_fresh(p):
        return ("fresh",)
    q = p & ((1 << 56) - 1) if h.tagging else p
    z = h.zone_of(q)
    if z is not None:
        return ("zone", z, q - z.U)
    for b in h.used + h.free:
        if b.U <= p < b.U + b.size:
            return ("big", b, p - b.U)
    return ("other", p)
