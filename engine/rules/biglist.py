"""The lists of large allocations as the dataflow states describe them."""
from .heap import *
from .cover import loop_leaves
from terms import kids, leaves

LISTS = {"used": ROOT + ".big_zone_used", "free": ROOT + ".big_zone_free"}
COUNTS = {"used": ROOT + ".big_zone_used_count", "free": ROOT + ".big_zone_free_count"}


class BigView(object):
    """heap + the record and list cells a state has written"""

    def __init__(self, tr, st, I):
        self.tr, self.h = tr, tr.h
        self.cells = {}
        for (cls, base, idx), v in st.mem.items():
            if cls[0] != "F" or base is None:
                continue
            n = I.mod.clsname(cls)
            if n not in BIGALL:
                continue
            a = tr.ev(base)
            if a is not None:
                self.cells[(n, a)] = tr.ev(v)

    def get(self, n, a):
        if (n, a) in self.cells:
            return self.cells[(n, a)]
        if self.h.is_fresh(a):
            return 0
        S, f = n.split(".")
        return self.h.field(S, f, a, 0, 0, 64)

    def touched(self, which):
        return any(n in (LISTS[which], COUNTS[which]) for n, a in self.cells)

    def walk(self, which, limit=16):
        """addresses on the list; None when it is not a well formed list"""
        m = self.h.next_mask
        v = self.get(LISTS[which], self.h.R0)
        out = []
        while True:
            if v is None:
                return None
            if v == 0:
                return out
            a = v ^ m
            if a in out or len(out) > limit or not (self.h.is_fresh(a) or self.h.big_at(a)):
                return out + [a, "broken"]
            out.append(a)
            v = self.get(BT + ".next", a)


BIGALL = BIGMETA | {BT + ".canary_a", BT + ".canary_b", BT + ".ttl"}


class Loops(object):
    """reachable valuations of the loop variables of an entry under one heap:
    start values, then the back edges' next values (summary unrolled)"""

    def __init__(self, I, limit=12):
        self.I = I
        self.limit = limit
        self.backs = {}
        self.leafs = {}
        for e in I.trace:
            if e.kind == "backedge":
                self.backs.setdefault(e.loop, []).append(e)
        for L, es in self.backs.items():
            s = {}
            for e in es:
                for t, v in e.s.nx:
                    s[t] = 1
            # loops that walk one of the lists
            if any(self.reads_list(e) for e in es):
                self.leafs[L] = list(s)
        self.own = {l: L for L, ls in self.leafs.items() for l in ls}
        DEEP.clear()

    def reads_list(self, e):
        for t, v in e.s.nx:
            for y in leaves(v):
                if y.args[0] == "ld" and isinstance(y.args[2], tuple) and self.I.mod.clsname(y.args[2]) in (BT + ".next", ROOT + ".big_zone_used", ROOT + ".big_zone_free"):
                    return True
        return False

    def valuations(self, h, L, outer):
        ls = self.leafs.get(L, [])
        save = h.over
        h.over = dict(save, **{})
        h.over.update(outer)
        tr = Trial(h)
        cur = [{x: tr.ev(x.init) for x in ls if x.init is not None}]
        out = []
        seen = set()
        for step in range(self.limit):
            nxt = []
            for v in cur:
                k = tuple(sorted((x.id, y) for x, y in v.items() if y is not None))
                if k in seen:
                    continue
                seen.add(k)
                out.append(v)
                h.over = dict(save)
                h.over.update(outer)
                h.over.update({x: y for x, y in v.items() if y is not None})
                for x in ls:
                    if v.get(x) is None:
                        h.over.pop(x, None)
                tr = Trial(h)
                for e in self.backs.get(L, []):
                    if any(tr.ev(f) == 0 for f in self.own_facts(e)):
                        continue
                    nxt.append({x: tr.ev(y) for x, y in e.s.nx})
            cur = nxt[:8]
            if not cur:
                break
        h.over = save
        return out

    def own_facts(self, e):
        """facts without the variables of other loops"""
        r = getattr(e, "own_", None)
        if r is None:
            r = e.own_ = [f for f in e.facts if all(l in self.own for l in deep([f]))]
        return r

    def alive(self, h, x, rng):
        """the event is possible with the list loops at h.over, other loop
        variables wherever they have to be"""
        tr = Trial(h)
        if tr.alive(x) or tr.repair(x, rng, frozen=self.own):
            return Trial(h)
        return None

    def relevant(self, x):
        """(list walking loops an event depends on, outermost first, and its
        facts by the last of these loops they mention)"""
        r = getattr(x, "loops_", None)
        if r is None:
            ts = list(x.facts)
            for (cls, base, idx), v in x.s.mem.items():
                if cls[0] == "F" and base is not None and self.I.mod.clsname(cls) in BIGALL:
                    ts += [base, v]
            todo, seen = list(deep(ts)), set()
            while todo:
                l = todo.pop()
                if l in seen or l not in self.own:
                    continue
                seen.add(l)
                if l.init is not None:
                    todo += deep([l.init])
            o = {}
            for l in seen:
                o[self.own[l]] = min(l.id, o.get(self.own[l], l.id))
            ls = sorted(o, key=o.get)
            fs = {L: [] for L in ls}
            fs[None] = []
            for f in x.facts:
                d = deep([f])
                if any(l not in self.own for l in d):
                    continue
                k = [self.own[l] for l in d]
                fs[max(k, key=ls.index) if k else None].append(f)
            r = x.loops_ = (ls, fs)
        return r

    def nests(self, h, x, limit=48):
        """valuations of the loop variables at an event that its facts do not
        refute; the caller sets h.over to each and evaluates from there"""
        ls, fs = self.relevant(x)
        save = h.over
        vs = [{}]
        for L in [None] + ls:
            ns = []
            for o in vs:
                for v in [{}] if L is None else self.valuations(h, L, o):
                    w = merge(o, v)
                    h.over = dict(save)
                    h.over.update(w)
                    tr = Trial(h)
                    if not any(tr.ev(f) == 0 for f in fs[L]):
                        ns.append(w)
            vs = ns[:limit]
            if not vs:
                break
        h.over = save
        return vs


def deep(ts):
    """loop variables in terms, including those inside the addresses of reads"""
    acc = set()
    for t in ts:
        d = DEEP.get(t)
        if d is None:
            d = set()
            seen = set()
            todo = [t]
            while todo:
                y = todo.pop()
                if y in seen:
                    continue
                seen.add(y)
                if y.op == "leaf":
                    if y.args[0] == "loop":
                        d.add(y)
                    todo += [z for z in y.args if hasattr(z, "op")]
                else:
                    todo += kids(y)
            DEEP[t] = d
        acc |= d
    return acc


DEEP = {}


def merge(a, b):
    r = dict(a)
    r.update({x: y for x, y in b.items() if y is not None})
    return r


def addrs(l):
    return sorted(b.addr for b in l)
