"""debugging aid: the cheapest set of atoms whose truth would make a fact hold"""
from terms import *


def cost(ev, t, want=1, memo=None):
    """(n, atoms) to flip so that t evaluates to want"""
    memo = {} if memo is None else memo
    k = (t, want)
    if k in memo:
        return memo[k]
    v = ev(t)
    if v == want:
        r = (0, ())
    elif t.op == "not":
        r = cost(ev, t.args[0], 1 - want, memo)
    elif t.op == "all":
        rs = [cost(ev, x, want, memo) for x in t.args[0]]
        if want:
            r = (sum(x[0] for x in rs), sum((x[1] for x in rs), ()))
        else:
            r = min(rs, key=lambda x: x[0])
    elif t.op == "ite" and t.w == 1:
        a = cost(ev, t.args[0], 1, memo)
        b = cost(ev, t.args[1], want, memo)
        c = cost(ev, t.args[0], 0, memo)
        d = cost(ev, t.args[2], want, memo)
        r = min([(a[0] + b[0], a[1] + b[1]), (c[0] + d[0], c[1] + d[1])], key=lambda x: x[0])
    else:
        ls = leaves(t)
        w = 1 if any(x.args[0] in ("loop", "undef") for x in ls) else 5
        if all(x.args[0] in ("arg", "g") or (x.args[0] == "ld" and x.args[2][0] == "G") for x in ls):
            w = 100
        r = (w, ((t, want),))
    memo[k] = r
    return r
