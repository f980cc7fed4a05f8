"""Loop coverage: does a scanning loop visit a given element, and can it stop before?

A visit is an iteration of a loop nest (values of the loop variables that their
initial value and constant step can reach) whose end state a sound heap does
not refute and a heap damaged at the element does.  Leaving a loop at a value
strictly before the visiting one must be refuted by the sound heap."""
from .heap import *
import itertools


def loop_leaves(ts):
    r = []
    for t in ts:
        for x in leaves(t):
            if x.args[0] == "loop" and x not in r:
                r.append(x)
    return r


class Cover(object):
    def __init__(self, I):
        self.I = I
        self.backs = [e for e in I.trace if e.kind == "backedge"]
        self.exits = [e for e in I.trace if e.kind == "exit"]
        self.fl = {}

    def leaves_of(self, e):
        r = self.fl.get(id(e))
        if r is None:
            r = self.fl[id(e)] = [x for x in loop_leaves(e.facts) if x.w > 1]
        return r

    def reach(self, tr, x, cands):
        """candidate values of a loop variable that its progression reaches"""
        a = tr.ev(x.init) if x.init is not None else None
        if a is None or not x.step:
            return []
        m = (1 << x.w) - 1
        out = []
        for c in cands:
            d = (c - a) & m
            if d >> (x.w - 1):
                d -= m + 1
            if d % x.step == 0 and d // x.step >= 0 and (c & m) not in out:
                out.append(c & m)
        return out

    def alive(self, h, e, vals):
        h.over.update(vals)
        tr = Trial(h)
        return not any(tr.ev(f) == 0 for f in e.facts)

    def visit(self, mkheap, cands, ordered):
        """ordered: leaves (outermost first) chosen by the caller are not needed:
        every reachable combination of candidate values is tried.
        Returns (event, values) or None."""
        h, hb = mkheap(False), mkheap(True)
        for e in self.backs:
            ls = self.leaves_of(e)
            ls = [x for x in ls if x.step]
            if not ls or len(ls) > 4:
                continue
            tr = Trial(h)
            cs = [self.reach(tr, x, cands) for x in ls]
            if any(not c for c in cs):
                continue
            for vs in itertools.product(*cs):
                vals = dict(zip(ls, vs))
                h.over = dict(h.over)
                hb.over = dict(hb.over)
                for x in ls:
                    h.over.pop(x, None)
                    hb.over.pop(x, None)
                if self.alive(h, e, vals) and not self.alive(hb, e, vals):
                    return e, vals
        return None

    def early_exit(self, mkheap, e, vals, rng, tries=6):
        """an exit of one of the loops around the visit that is possible before it"""
        h = mkheap(False)
        loops = set(e.nest)
        for x in self.exits:
            if x.loop not in loops:
                continue
            mine = [v for v in vals if (v.args[1], v.args[2]) == x.loop]
            outer = [v for v in vals if (v.args[1], v.args[2]) in x.nest]
            if not mine:
                continue
            tr0 = Trial(h)
            for v in mine:
                a = tr0.ev(v.init)
                k = ((vals[v] - a) & ((1 << v.w) - 1)) // abs(v.step) if v.step > 0 else ((a - vals[v]) & ((1 << v.w) - 1)) // abs(v.step)
                ks = {0, 1, k - 1, k // 2} | {rng.randrange(k) for q in range(3) if k > 0}
                for kk in sorted(ks):
                    if not 0 <= kk < k:
                        continue
                    for t in range(tries):
                        h = mkheap(False)
                        h.salt = rng.getrandbits(60)
                        h.over = dict(h.over)
                        for u in outer:
                            h.over[u] = vals[u]
                        h.over[v] = (a + v.step * kk) & ((1 << v.w) - 1)
                        tr = Trial(h)
                        if not any(tr.ev(f) == 0 for f in x.facts):
                            return x, v, h.over[v]
        return None
