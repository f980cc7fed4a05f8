"""Hash-consed value terms (a value numbering of the program's SSA values) with a
light normal form, and a three-valued numeric evaluator used to compare them
under randomly chosen valuations of their leaves (random interpretation)."""

_tab = {}
_next = [0]


class T(object):
    __slots__ = ("op", "w", "args", "id", "prov", "nz", "info", "init", "step")

    def __repr__(self):
        return show(self, 4)


def mk(op, w, *args):
    k = (op, w, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.args = args
        t.id = _next[0]
        t.prov = None
        t.nz = False
        t.info = None
        t.init = None
        t.step = None
        _next[0] += 1
        _tab[k] = t
    return t


def reset():
    """forget every term but the constants: leaves carry attributes of the run
    that made them and must not be shared between runs"""
    for k in [k for k, t in _tab.items() if t.op != "c"]:
        del _tab[k]


def const(v, w):
    return mk("c", w, v & ((1 << w) - 1))


TRUE = mk("c", 1, 1)
FALSE = mk("c", 1, 0)


def is_c(t, v=None):
    return t.op == "c" and (v is None or t.args[0] == v)


def cval(t):
    return t.args[0]


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def leaf(kind, w, *info):
    return mk("leaf", w, kind, *info)


def lin(w, c, d):
    """d: dict term -> coefficient"""
    m = (1 << w) - 1
    d2 = {}
    for t, k in d.items():
        k &= m
        if k:
            d2[t] = k
    c &= m
    if not d2:
        return const(c, w)
    if c == 0 and len(d2) == 1:
        (t, k), = d2.items()
        if k == 1:
            return t
    return mk("lin", w, c, tuple(sorted(d2.items(), key=lambda x: x[0].id)))


def lparts(t):
    if t.op == "c":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def add(a, b):
    if a.op == "c" and a.args[0] == 0:
        return b
    if b.op == "c" and b.args[0] == 0:
        return a
    ca, da = lparts(a)
    cb, db = lparts(b)
    if len(da) < len(db):
        ca, da, cb, db = cb, db, ca, da
    for t, k in db.items():
        da[t] = da.get(t, 0) + k
    return lin(a.w, ca + cb, da)


def scale(a, k):
    ca, da = lparts(a)
    return lin(a.w, ca * k, {t: v * k for t, v in da.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if a.op == "c":
        return scale(b, a.args[0])
    if b.op == "c":
        return scale(a, b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk("mul", a.w, a, b)


def xor(a, b):
    if a.w == 1:
        if is_c(a):
            return neg(b) if cval(a) else b
        if is_c(b):
            return neg(a) if cval(b) else a
        if a is b:
            return FALSE
        return mk("xor", 1, 0, tuple(sorted((a, b), key=lambda x: x.id)))
    c = 0
    s = {}
    for t in (a, b):
        if t.op == "c":
            c ^= t.args[0]
        elif t.op == "xor":
            c ^= t.args[0]
            for x in t.args[1]:
                if x in s:
                    del s[x]
                else:
                    s[x] = 1
        else:
            if t in s:
                del s[t]
            else:
                s[t] = 1
    if not s:
        return const(c, a.w)
    if c == 0 and len(s) == 1:
        return next(iter(s))
    if len(s) == 1 and c == (1 << a.w) - 1:
        t = next(iter(s))
        return sub(const(c, a.w), t)
    return mk("xor", a.w, c, tuple(sorted(s, key=lambda x: x.id)))


def band(a, b):
    if a.w == 1:
        return conj([a, b])
    if a.op == "c" and b.op == "c":
        return const(a.args[0] & b.args[0], a.w)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        m = (1 << a.w) - 1
        if b.args[0] == 0:
            return b
        if b.args[0] == m:
            return a
        if a.op == "and" and a.args[1].op == "c":
            return band(a.args[0], const(a.args[1].args[0] & b.args[0], a.w))
        if a.op == "zext" and b.args[0] & ((1 << a.args[0].w) - 1) == (1 << a.args[0].w) - 1:
            return a
        return mk("and", a.w, a, b)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("and", a.w, a, b)


def bor(a, b):
    if a.w == 1:
        return disj([a, b])
    if a.op == "c" and b.op == "c":
        return const(a.args[0] | b.args[0], a.w)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.args[0] == 0:
            return a
        if b.args[0] == (1 << a.w) - 1:
            return b
    if a is b:
        return a
    if a.op != "c" and b.op != "c" and a.id > b.id:
        a, b = b, a
    return mk("or", a.w, a, b)


def shl(a, b):
    if b.op == "c":
        if b.args[0] >= a.w:
            return leaf("undef", a.w, "shl", a, b)
        return scale(a, 1 << b.args[0])
    return mk("shl", a.w, a, b)


def lshr(a, b):
    if b.op == "c":
        if b.args[0] == 0:
            return a
        if a.op == "c":
            return const(a.args[0] >> b.args[0], a.w)
        if a.op == "lshr" and a.args[1].op == "c":
            return lshr(a.args[0], const(a.args[1].args[0] + b.args[0], a.w)) if a.args[1].args[0] + b.args[0] < a.w else const(0, a.w)
    return mk("lshr", a.w, a, b)


def ashr(a, b):
    if b.op == "c":
        if b.args[0] == 0:
            return a
        if a.op == "c":
            return const(signed(a.args[0], a.w) >> b.args[0], a.w)
    return mk("ashr", a.w, a, b)


def udiv(a, b):
    if b.op == "c" and b.args[0]:
        k = b.args[0]
        if a.op == "c":
            return const(a.args[0] // k, a.w)
        if k & (k - 1) == 0:
            return lshr(a, const(k.bit_length() - 1, a.w))
    return mk("udiv", a.w, a, b)


def urem(a, b):
    if b.op == "c" and b.args[0]:
        k = b.args[0]
        if a.op == "c":
            return const(a.args[0] % k, a.w)
        if k & (k - 1) == 0:
            return band(a, const(k - 1, a.w))
    return mk("urem", a.w, a, b)


def sdiv(a, b):
    if a.op == "c" and b.op == "c" and b.args[0]:
        x, y = signed(a.args[0], a.w), signed(b.args[0], b.w)
        return const(int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1), a.w)
    if is_c(b, 1):
        return a
    return mk("sdiv", a.w, a, b)


def srem(a, b):
    if a.op == "c" and b.op == "c" and b.args[0]:
        x, y = signed(a.args[0], a.w), signed(b.args[0], b.w)
        return const((abs(x) % abs(y)) * (1 if x >= 0 else -1), a.w)
    return mk("srem", a.w, a, b)


def zext(a, w):
    if a.w == w:
        return a
    if a.op == "c":
        return const(a.args[0], w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.op == "ite" and a.args[1].op == "c" and a.args[2].op == "c":
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return mk("zext", w, a)


def sext(a, w):
    if a.w == w:
        return a
    if a.op == "c":
        return const(signed(a.args[0], a.w), w)
    if a.op == "sext":
        return sext(a.args[0], w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.op == "ite" and a.args[1].op == "c" and a.args[2].op == "c":
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return mk("sext", w, a)


def trunc(a, w):
    if a.w == w:
        return a
    if a.op == "c":
        return const(a.args[0], w)
    if a.op in ("zext", "sext"):
        b = a.args[0]
        if b.w == w:
            return b
        if b.w > w:
            return trunc(b, w)
        return zext(b, w) if a.op == "zext" else sext(b, w)
    if a.op == "trunc":
        return trunc(a.args[0], w)
    if a.op == "ite" and (a.args[1].op == "c" or a.args[2].op == "c"):
        return ite(a.args[0], trunc(a.args[1], w), trunc(a.args[2], w))
    if w == 1:
        # the low bit as a boolean
        return neg(eq(band(a, const(1, a.w)), const(0, a.w)))
    return mk("trunc", w, a)


def neg(a):
    assert a.w == 1
    if a.op == "c":
        return const(1 - a.args[0], 1)
    if a.op == "not":
        return a.args[0]
    return mk("not", 1, a)


def conj(xs):
    s = {}
    for x in xs:
        if x.op == "c":
            if x.args[0] == 0:
                return FALSE
            continue
        if x.op == "all":
            for y in x.args[0]:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        if neg(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("all", 1, tuple(sorted(s, key=lambda x: x.id)))


def disj(xs):
    return neg(conj([neg(x) for x in xs]))


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "c":
        return a if c.args[0] else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.w == 1:
        if is_c(a, 1):
            return disj([c, b])
        if is_c(a, 0):
            return conj([neg(c), b])
        if is_c(b, 1):
            return disj([neg(c), a])
        if is_c(b, 0):
            return conj([c, a])
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    t = mk("ite", a.w, c, a, b)
    if a.nz and b.nz:
        t.nz = True
    return t


def _dist(t):
    """an ite with a constant arm: comparisons distribute over it"""
    return t.op == "ite" and (t.args[1].op == "c" or t.args[2].op == "c" or t.args[1].op == "ite" or t.args[2].op == "ite")


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return FALSE
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        v = b.args[0]
        if a.w == 1:
            return a if v else neg(a)
        if v == 0 and (a.nz or a.op == "fld"):
            return FALSE
        if a.op == "zext":
            x = a.args[0]
            if v >> x.w:
                return FALSE
            return eq(x, const(v, x.w))
        if a.op == "sext":
            x = a.args[0]
            if const(signed(v & ((1 << x.w) - 1), x.w), a.w).args[0] != v:
                return FALSE
            return eq(x, const(v, x.w))
        if a.op == "ite" and _dist(a):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if a.op == "xor":
            xs = a.args[1]
            if len(xs) == 1:
                return eq(xs[0], const(v ^ a.args[0], a.w))
            if len(xs) == 2 and v == a.args[0]:
                return eq(xs[0], xs[1])
        if a.op == "lin" and a.args[0]:
            return eq(lin(a.w, 0, dict(a.args[1])), const(v - a.args[0], a.w))
        if a.op == "lin" and v == 0 and len(a.args[1]) == 2:
            (x, kx), (y, ky) = a.args[1]
            m = (1 << a.w) - 1
            if kx == 1 and ky == m:
                return eq(x, y)
            if ky == 1 and kx == m:
                return eq(y, x)
        if a.op == "lin" and v == 0 and a.args[1][0][1] >> (a.w - 1):
            return eq(scale(a, -1), b)
        return mk("eq", 1, a, b)
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    if a.op == "lin" or b.op == "lin":
        d = sub(a, b)
        if d.op == "c":
            return TRUE if d.args[0] == 0 else FALSE
        if d.op == "lin" and len(d.args[1]) < 2 and d.args[0] == 0:
            return eq(d, const(0, a.w))
        if d.op != "lin":
            return eq(d, const(0, a.w))
    if a.op == "ite" and (a.args[1] is b or a.args[2] is b or _dist(a)):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (b.args[1] is a or b.args[2] is a or _dist(b)):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", 1, a, b)


def umax_of(t):
    """a cheap upper bound (unsigned)"""
    if t.op == "c":
        return t.args[0]
    if t.op == "zext":
        return umax_of(t.args[0])
    if t.op == "and" and t.args[1].op == "c":
        return t.args[1].args[0]
    if t.op == "lshr" and t.args[1].op == "c":
        return umax_of(t.args[0]) >> t.args[1].args[0]
    if t.op == "urem" and t.args[1].op == "c":
        return t.args[1].args[0] - 1
    if t.op == "ite":
        return max(umax_of(t.args[1]), umax_of(t.args[2]))
    return (1 << t.w) - 1


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] < b.args[0] else FALSE
    if b.op == "c":
        if b.args[0] == 0:
            return FALSE
        if b.args[0] == 1:
            return eq(a, const(0, a.w))
        if umax_of(a) < b.args[0]:
            return TRUE
    if a.op == "c":
        if a.args[0] == (1 << a.w) - 1:
            return FALSE
        if a.args[0] == 0:
            return neg(eq(b, const(0, b.w)))
        if umax_of(b) <= a.args[0]:
            return FALSE
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return ult(a.args[0], b.args[0])
    if a.op == "zext" and b.op == "c" and b.args[0] >> a.args[0].w == 0:
        return ult(a.args[0], const(b.args[0], a.args[0].w))
    if b.op == "zext" and a.op == "c" and a.args[0] >> b.args[0].w == 0:
        return ult(const(a.args[0], b.args[0].w), b.args[0])
    if _dist(a):
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if _dist(b):
        return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    return mk("ult", 1, a, b)


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if signed(a.args[0], a.w) < signed(b.args[0], b.w) else FALSE
    ha = umax_of(a) >> (a.w - 1) == 0
    hb = umax_of(b) >> (b.w - 1) == 0
    if ha and hb:
        return ult(a, b)
    if is_c(b) and signed(cval(b), b.w) <= 0 and ha:
        return FALSE
    if is_c(a) and signed(cval(a), a.w) < 0 and hb:
        return TRUE
    if a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    if _dist(a):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if _dist(b):
        return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    return mk("slt", 1, a, b)


def icmp(pred, a, b):
    if pred == "eq":
        return eq(a, b)
    if pred == "ne":
        return neg(eq(a, b))
    if pred == "ult":
        return ult(a, b)
    if pred == "ugt":
        return ult(b, a)
    if pred == "ule":
        return neg(ult(b, a))
    if pred == "uge":
        return neg(ult(a, b))
    if pred == "slt":
        return slt(a, b)
    if pred == "sgt":
        return slt(b, a)
    if pred == "sle":
        return neg(slt(b, a))
    if pred == "sge":
        return neg(slt(a, b))
    raise ValueError(pred)


def bswap(a):
    if a.op == "c":
        return const(int.from_bytes(a.args[0].to_bytes(a.w // 8, "little"), "big"), a.w)
    if a.op == "bswap":
        return a.args[0]
    return mk("bswap", a.w, a)


def fld(base, S, i, off):
    t = mk("fld", 64, base, S, i, off)
    t.nz = True
    return t


def show(t, depth=6):
    if t.op == "c":
        v = t.args[0]
        if t.w > 8 and v > 65536:
            return hex(v)
        return str(v)
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.op == "leaf":
        k = t.args[0]
        if k == "ld":
            return "%s.%s" % (show(t.args[1], d) if isinstance(t.args[1], T) else t.args[1], fname(t.args[2]))
        if k == "rd":
            return "*(%s)" % show(t.args[1], d)
        return "%s(%s)" % (k, ",".join(show(x, d) if isinstance(x, T) else str(x) for x in t.args[1:3]))
    if t.op == "lin":
        s = []
        for x, k in t.args[1]:
            k = signed(k, t.w)
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + show(x, d))
        if t.args[0]:
            s.append(str(signed(t.args[0], t.w)))
        return "(" + "+".join(s).replace("+-", "-") + ")"
    if t.op == "xor":
        return "(" + "^".join(show(x, d) for x in t.args[1]) + ("^%x" % t.args[0] if t.args[0] else "") + ")"
    if t.op == "all":
        return "(" + " && ".join(show(x, d) for x in t.args[0][:6]) + (" && …" if len(t.args[0]) > 6 else "") + ")"
    if t.op == "not":
        x = t.args[0]
        if x.op == "eq":
            return "%s!=%s" % (show(x.args[0], d), show(x.args[1], d))
        if x.op == "all":
            return "(" + " || ".join(show(neg(y), d) for y in x.args[0][:6]) + ")"
        return "!" + show(x, d)
    if t.op == "eq":
        return "%s==%s" % (show(t.args[0], d), show(t.args[1], d))
    if t.op in ("ult", "slt"):
        return "%s<%s%s" % (show(t.args[0], d), "s " if t.op == "slt" else "", show(t.args[1], d))
    if t.op == "ite":
        return "(%s?%s:%s)" % tuple(show(x, d) for x in t.args)
    if t.op == "fld":
        return "&%s->%s" % (show(t.args[0], d), fname((t.args[1], t.args[2])))
    if t.op in ("zext", "sext", "trunc"):
        return show(t.args[0], depth)
    return "%s(%s)" % (t.op, ",".join(show(x, d) if isinstance(x, T) else str(x) for x in t.args))


FIELD_NAMES = {}


def fname(cls):
    if isinstance(cls, tuple):
        if cls[0] == "F":
            cls = cls[1:]
        if cls[0] in ("G", "R"):
            return cls[1]
        if cls[0] == "A":
            return "local"
        return FIELD_NAMES.get(cls, "%s.%s" % cls)
    return str(cls)


def leaves(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "leaf":
            acc.add(x)
            continue
        st.extend(kids(x))
    return acc


def kids(x):
    if x.op == "lin":
        return [t for t, _ in x.args[1]]
    if x.op == "xor":
        return list(x.args[1])
    if x.op == "all":
        return list(x.args[0])
    if x.op == "leaf":
        return [y for y in x.args[1:] if isinstance(y, T)]
    return [y for y in x.args if isinstance(y, T)]


class Eval(object):
    """Evaluates terms numerically. assign(leaf) returns an int or None
    (unknown); unknown propagates three-valuedly."""

    def __init__(self, assign):
        self.assign = assign
        self.memo = {}

    def __call__(self, t):
        memo = self.memo
        if t in memo:
            return memo[t]
        st = [t]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if x.op == "c":
                memo[x] = x.args[0]
                st.pop()
                continue
            if x.op == "leaf":
                memo[x] = None
                v = self.assign(x, self)
                memo[x] = None if v is None else v & ((1 << x.w) - 1)
                st.pop()
                continue
            if x.op == "ite":
                c = x.args[0]
                if c not in memo:
                    st.append(c)
                    continue
                cv = memo[c]
                if cv is not None:
                    b = x.args[1] if cv else x.args[2]
                    if b not in memo:
                        st.append(b)
                        continue
                    memo[x] = memo[b]
                    st.pop()
                    continue
            todo = [k for k in kids(x) if k not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x] = self.apply(x)
            st.pop()
        return memo[t]

    def apply(self, x):
        m = self.memo
        op = x.op
        w = x.w
        M = (1 << w) - 1
        if op == "lin":
            s = x.args[0]
            for t, k in x.args[1]:
                v = m[t]
                if v is None:
                    return None
                s += v * k
            return s & M
        if op == "xor":
            s = x.args[0]
            for t in x.args[1]:
                v = m[t]
                if v is None:
                    return None
                s ^= v
            return s & M
        if op == "all":
            unk = False
            for t in x.args[0]:
                v = m[t]
                if v == 0:
                    return 0
                if v is None:
                    unk = True
            return None if unk else 1
        if op == "ite":
            a, b = m[x.args[1]], m[x.args[2]]
            return a if a is not None and a == b else None
        if op == "fld":
            v = m[x.args[0]]
            return None if v is None else (v + x.args[3]) & M
        if op == "and":
            a, b = m[x.args[0]], m[x.args[1]]
            if a == 0 or b == 0:
                return 0
            return None if a is None or b is None else a & b
        vs = [m[k] for k in kids(x)]
        if any(v is None for v in vs):
            return None
        a = vs[0]
        b = vs[1] if len(vs) > 1 else None
        aw = kids(x)[0].w
        if op == "or":
            return a | b
        if op == "not":
            return 1 - a
        if op == "eq":
            return 1 if a == b else 0
        if op == "ult":
            return 1 if a < b else 0
        if op == "slt":
            return 1 if signed(a, aw) < signed(b, aw) else 0
        if op == "mul":
            return (a * b) & M
        if op == "umulov":
            return 1 if (a * b) >> aw else 0
        if op == "shl":
            return (a << b) & M if b < w else None
        if op == "lshr":
            return a >> b if b < w else None
        if op == "ashr":
            return (signed(a, w) >> b) & M if b < w else None
        if op == "udiv":
            return a // b if b else None
        if op == "urem":
            return a % b if b else None
        if op in ("sdiv", "srem"):
            if not b:
                return None
            p, q = signed(a, w), signed(b, w)
            d = abs(p) // abs(q)
            d = d if (p < 0) == (q < 0) else -d
            return (d if op == "sdiv" else p - d * q) & M
        if op == "zext":
            return a
        if op == "sext":
            return signed(a, aw) & M
        if op == "trunc":
            return a & M
        if op == "bswap":
            return int.from_bytes(a.to_bytes(w // 8, "little"), "big")
        return None
