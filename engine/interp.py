"""Path-condition-gated value-numbering dataflow over the virtually inlined
control-flow graph of one entry point.

* every internal call is entered (context sensitive); external, variadic and
  indirect calls are events;
* values are hash-consed terms (terms.py); memory is a map from typed cells
  (struct, field, base term, index term) to terms; raw memory is split into
  regions by the provenance of the address;
* at a control-flow join, states with the same rule state and the same set of
  held locks are merged: differing values become ite(path condition, a, b) and
  differing branch facts become a disjunction;
* a loop is one generic iteration: what the loop writes (found by running it)
  is replaced at its header by fresh leaves;
* a rule is an automaton run along the states (ESP property simulation).
No solver is involved."""
import sys
import re
from heapq import heappush, heappop
from terms import *
import terms as tm

sys.setrecursionlimit(100000)

LOCKS = {"pthread_mutex_lock": 1, "pthread_mutex_unlock": 0}
NORETURN = {"abort", "exit", "_exit", "__assert_fail", "pthread_exit", "__stack_chk_fail", "_ZSt17__throw_bad_allocv"}


def tyw(ty):
    if ty == "ptr":
        return 64
    if ty.startswith("i") and ty[1:].isdigit():
        return int(ty[1:])
    if ty == "double":
        return 64
    if ty == "float":
        return 32
    return 64


ITOP = re.compile(r"inttoptr \(i64 (-?\d+) to ptr\)")


class Loc(object):
    pass


class Func(object):
    def __init__(self, name, j):
        self.name = name
        self.decl = j["decl"]
        self.noreturn = j["noreturn"]
        self.vararg = j["vararg"]
        self.internal = j["internal"]
        self.hidden = j["hidden"]
        self.ret = j["ret"]
        self.file = j.get("file")
        self.line = j.get("line")
        self.args = j.get("args") or []
        self.blocks = j.get("blocks") or []
        if not self.decl:
            self.analyse()

    def succs(self, b):
        t = self.blocks[b][-1]
        if t["op"] == "br" or t["op"] == "invoke":
            return t["succ"]
        if t["op"] == "switch":
            return [t["def"]] + [c[1] for c in t["cases"]]
        return []

    def analyse(self):
        n = len(self.blocks)
        seen = [0] * n
        order = []
        self.back = set()
        st = [(0, iter(self.succs(0)))]
        seen[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if seen[s] == 0:
                    seen[s] = 1
                    st.append((s, iter(self.succs(s))))
                    break
                if seen[s] == 1:
                    self.back.add((b, s))
            else:
                seen[b] = 2
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        preds = {}
        for b in order:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        self.preds = preds
        self.loops = {}
        for (b, h) in self.back:
            body = self.loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(preds.get(x, ()))
        self.defs = {}
        for bi, blk in enumerate(self.blocks):
            for i in blk:
                self.defs[i["id"]] = (bi, i)
        self.naturals = {i: a for i, a in enumerate(self.args)}


class Module(object):
    def __init__(self, j, macros=None, config="?"):
        self.config = config
        self.macros = macros or {}
        self.globals = j["globals"]
        self.ctors = j["ctors"]
        self.dtors = j["dtors"]
        self.structs = {}
        for n, s in j["structs"].items():
            c = canon(n)
            if c not in self.structs:
                self.structs[c] = s
                for i, f in enumerate(s["fields"]):
                    tm.FIELD_NAMES[(c, i)] = "%s.%s" % (c, f[0])
        self.funcs = {n: Func(n, f) for n, f in j["functions"].items()}
        self.sizes = {}
        for n, s in self.structs.items():
            self.sizes.setdefault(s["size"], []).append(n)
        taken = set()
        self.callers = {}
        for f in self.funcs.values():
            for blk in f.blocks:
                for i in blk:
                    if i["op"] in ("call", "invoke") and i.get("fn"):
                        self.callers.setdefault(i["fn"], set()).add(f.name)
                    for k, o in enumerate(i.get("ops", ())):
                        if o and o[0] == "f":
                            taken.add(o[1])
        for g in self.globals.values():
            for f in g.get("funcs", ()):
                taken.add(f)
        self.taken = taken

    def field(self, S, name):
        s = self.structs.get(S)
        if not s:
            return None
        for i, f in enumerate(s["fields"]):
            if f[0] == name:
                return i
        return None

    def fcls(self, S, name):
        i = self.field(S, name)
        return None if i is None else ("F", S, i)

    def clsname(self, cls):
        if cls[0] == "F":
            return "%s.%s" % (cls[1], self.structs[cls[1]]["fields"][cls[2]][0]) if cls[1] in self.structs else "%s.#%d" % cls[1:]
        if cls[0] in ("G", "R"):
            return cls[1]
        return str(cls[0])

    def exported(self):
        return sorted(f.name for f in self.funcs.values() if not f.decl and not f.internal and not f.hidden)

    def entries(self):
        """exported functions, constructors/destructors, functions whose address
        escapes (handlers, thread bodies)."""
        r = set(self.exported())
        for n in list(self.ctors) + list(self.dtors) + list(self.taken):
            if n in self.funcs and not self.funcs[n].decl:
                r.add(n)
        return sorted(r)


def canon(n):
    for p in ("struct.", "union.", "class."):
        if n.startswith(p):
            n = n[len(p):]
            break
    a, _, b = n.rpartition(".")
    if a and b.isdigit():
        n = a
    return n


class State(object):
    __slots__ = ("env", "mem", "ver", "epoch", "facts", "auto", "held", "nx")

    def copy(self):
        s = State()
        s.env = self.env
        s.mem = dict(self.mem)
        s.ver = dict(self.ver)
        s.epoch = self.epoch
        s.facts = self.facts
        s.auto = self.auto
        s.held = self.held
        return s

    def key(self):
        return (self.auto, self.held)


class Event(object):
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


TRACED = ("store", "memset", "memcpy", "call")


class Rule(object):
    """subclass: initial rule state and the event hook"""
    init = None
    weak = ()               # members whose stores keep cells that may alias (conditionally overwritten)
    trace_more = ()         # further kinds of event to keep in the trace, with their state

    def event(self, I, st, ev):
        pass

    def lock_stable(self, cls, name):
        return True


# Values that no other thread changes once the root is initialised: they keep
# their value numbers across lock acquisitions.
STABLE = {
    "_root", "g_page_size", "g_page_size_shift",
    "iso_alloc_zone_t.chunk_size", "iso_alloc_zone_t.chunk_count", "iso_alloc_zone_t.internal", "iso_alloc_zone_t.index",
    "iso_alloc_zone_t.pointer_mask", "iso_alloc_zone_t.canary_secret", "iso_alloc_zone_t.bitmap_size",
    "iso_alloc_zone_t.max_bitmap_idx", "iso_alloc_zone_t.tagged", "iso_alloc_zone_t.user_pages_start", "iso_alloc_zone_t.bitmap_start",
    "iso_alloc_root.zones", "iso_alloc_root.chunk_lookup_table", "iso_alloc_root.chunk_quarantine", "iso_alloc_root.zero_alloc_page",
    "iso_alloc_root.uaf_ptr_page", "iso_alloc_root.zone_handle_mask", "iso_alloc_root.big_zone_next_mask",
    "iso_alloc_root.big_zone_canary_secret", "iso_alloc_root.zone_retirement_shf", "iso_alloc_root.zones_size",
    "iso_alloc_big_zone_t.user_pages_start", "iso_alloc_big_zone_t.size", "iso_alloc_big_zone_t.canary_a", "iso_alloc_big_zone_t.canary_b",
}


class Interp(object):
    MAXDEPTH = 40

    def __init__(self, mod, rule, opaque=()):
        tm.reset()
        self.mod = mod
        self.rule = rule
        self.opaque = set(opaque)
        self.ctx = ()
        self.ctxids = {}
        self.loopmods = {}
        self.loopstack = []
        self.stats = {"functions": set(), "blocks": 0, "events": 0, "instrs": 0, "merges": 0, "opaque": set()}
        self.stack = []
        self.cur = None
        self.loops_in = []
        self.trace = [] if getattr(rule, "traced", False) else None
        self.entered = {}

    # ---- naming
    def cid(self):
        c = self.ctxids.get(self.ctx)
        if c is None:
            c = self.ctxids[self.ctx] = len(self.ctxids)
        return c

    def where(self):
        """call path, innermost last"""
        r = []
        for f, i in self.stack:
            l = i.get("loc") if i else None
            r.append("%s%s" % (f, (":%d" % l[1]) if l else ""))
        return " > ".join(r)

    def loc(self):
        for f, i in reversed(self.stack):
            if i and i.get("loc"):
                return "%s:%d" % (i["loc"][0].split("/")[-1], i["loc"][1])
        return "?"

    def srcloc(self):
        f, i = self.stack[-1]
        if i and i.get("loc"):
            return "%s:%d" % (i["loc"][0], i["loc"][1])
        return self.loc()

    # ---- entry
    def run(self, fname, init_facts=(), auto="__default__"):
        fn = self.mod.funcs[fname]
        st = State()
        st.env = {}
        st.mem = {}
        st.ver = {}
        st.epoch = 0
        st.facts = frozenset()
        st.held = frozenset()
        st.auto = self.rule.init if auto == "__default__" else auto
        args = []
        for k, (n, ty, bv) in enumerate(fn.args):
            t = leaf("arg", tyw(ty), n or str(k), k)
            if ty == "ptr":
                t.prov = "data"
            args.append(t)
        self.entry = fname
        self.entry_args = args
        hook = getattr(self.rule, "entry", None)
        if hook:
            hook(self, st, fn, args)
        for f in init_facts:
            self.learn(st, f)
        self.ctx = ()
        self.stack = []
        res = self.exec_fn(fn, args, st)
        out = []
        self.stack = [(fname, None)]
        for st, rv, ri in res:
            self.stack = [(fname, ri)]
            self.emit(st, Event("ret", value=rv, fn=fname))
            out.append((st, rv))
        return out

    def emit(self, st, ev):
        self.stats["events"] += 1
        if self.trace is not None and (ev.kind in TRACED or ev.kind in self.rule.trace_more):
            ev.facts = st.facts
            if ev.kind in self.rule.trace_more:
                ev.s = st.copy()
            ev.nest = self.nest()
            ev.loc = self.loc()
            ev.fn_here = self.stack[-1][0] if self.stack else ""
            ev.held = st.held
            self.trace.append(ev)
        self.rule.event(self, st, ev)

    # ---- facts
    def decide(self, st, c, memo=None):
        """1/0 if the branch condition is settled by the facts, else None"""
        if c.op == "c":
            return c.args[0]
        if memo is None:
            memo = {}
        elif c in memo:
            return memo[c]
        memo[c] = None
        r = memo[c] = self._decide(st, c, memo)
        return r

    def _decide(self, st, c, memo):
        f = st.facts
        if c in f:
            return 1
        n = neg(c)
        if n in f:
            return 0
        if c.op == "all":
            r = 1
            for x in c.args[0]:
                d = self.decide(st, x, memo)
                if d == 0:
                    return 0
                if d is None:
                    r = None
            return r
        if c.op == "not":
            d = self.decide(st, c.args[0], memo)
            return None if d is None else 1 - d
        if c.op == "eq" and is_c(c.args[1]):
            a = c.args[0]
            for x in f:
                if x.op == "eq" and x.args[0] is a and is_c(x.args[1]) and x is not c:
                    return 0
            if a.op == "ite":
                d = self.decide(st, a.args[0], memo)
                if d is not None:
                    return self.decide(st, eq(a.args[1] if d else a.args[2], c.args[1]), memo)
        if c.op == "ite":
            d = self.decide(st, c.args[0], memo)
            if d is not None:
                return self.decide(st, c.args[1] if d else c.args[2], memo)
        return None

    def learn(self, st, c):
        """assume c in st; returns False if that is contradictory"""
        todo = [c]
        facts = set(st.facts)
        while todo:
            x = todo.pop()
            if x.op == "c":
                if x.args[0] == 0:
                    return False
                continue
            if x in facts:
                continue
            if neg(x) in facts:
                return False
            if x.op == "all":
                todo.extend(x.args[0])
                continue
            facts.add(x)
            if x.op == "eq" and is_c(x.args[1]):
                for y in facts:
                    if y is not x and y.op == "eq" and y.args[0] is x.args[0] and is_c(y.args[1]):
                        return False
            # unit propagation through recorded disjunctions
            nx = neg(x)
            for y in list(facts):
                if y.op == "not" and y.args[0].op == "all":
                    dis = y.args[0].args[0]      # not(all(d)) : some d is false
                    if x in dis or (y is x):
                        rest = [d for d in dis if d not in facts]
                        if not rest:
                            return False
                        if len(rest) == 1:
                            todo.append(neg(rest[0]))
                elif y.op == "ite" and y.w == 1:
                    pass
        st.facts = frozenset(facts)
        return True

    # ---- memory
    def region(self, a):
        """provenance class of a raw address"""
        if a.prov is not None:
            return a.prov
        r = self._region(a)
        a.prov = r
        return r

    def _region(self, a):
        op = a.op
        if op == "lin":
            best = None
            for t, k in a.args[1]:
                if k == 1:
                    r = self.region(t)
                    if r not in ("int", "unk"):
                        return r
                    if r == "unk":
                        best = r
            return best or "int"
        if op == "xor":
            rs = [self.region(t) for t in a.args[1]]
            for r in rs:
                if r not in ("int", "unk"):
                    return r
            return "unk" if "unk" in rs else "int"
        if op in ("and", "or", "trunc", "zext", "sext"):
            rs = [self.region(t) for t in kids(a)]
            for r in rs:
                if r not in ("int", "unk"):
                    return r
            return rs[0] if rs else "int"
        if op == "fld":
            return "meta:" + a.args[1]
        if op == "ite":
            r1, r2 = self.region(a.args[1]), self.region(a.args[2])
            if r1 == r2:
                return r1
            if is_c(a.args[1]):
                return r2
            if is_c(a.args[2]):
                return r1
            if r1 == "map" and r2 != "int":
                return r2
            if r2 == "map" and r1 != "int":
                return r1
            return "unk"
        if op == "leaf":
            k = a.args[0]
            if k == "ld":
                return self.ldregion(a.args[2])
            if k == "rd":
                return "data" if a.w == 64 else "int"
            if k == "g":
                return "g:" + a.args[1]
            if k == "alloca":
                return "alloca"
            if k == "call":
                return "map" if a.args[1] == "mmap" else ("unk" if a.w == 64 else "int")
            if k == "arg":
                return "int"
            return "int"
        return "int"

    def ldregion(self, cls):
        if cls[0] == "F":
            s = self.mod.structs.get(cls[1])
            f = s["fields"][cls[2]] if s else None
            if f and f[3] == "p":
                n = f[0]
                if cls[1] == "iso_alloc_zone_t" and n == "user_pages_start":
                    return "data"
                if cls[1] == "iso_alloc_big_zone_t" and n == "user_pages_start":
                    return "data"
                if cls[1] == "iso_alloc_zone_t" and n == "bitmap_start" or cls[1] == "iso_alloc_bitmap_t" and n == "bitmap":
                    return "bitmap"
                return "p:" + n
            return "int"
        if cls[0] == "G":
            g = self.mod.globals.get(cls[1])
            if g and g["type"] == "p":
                return "p:" + cls[1]
            return "int"
        return "unk"

    def resolve(self, a):
        """address term -> (class, base, index)"""
        if a.op == "fld":
            return ("F", a.args[1], a.args[2]), a.args[0], None
        if a.op == "leaf":
            if a.args[0] == "g":
                return ("G", a.args[1]), None, None
            if a.args[0] == "alloca":
                return ("A", a), None, None
        if a.op == "lin":
            for t, k in a.args[1]:
                if k != 1:
                    continue
                if t.op == "fld" or (t.op == "leaf" and t.args[0] in ("g", "alloca")):
                    cls, base, _ = self.resolve(t)
                    return cls, base, sub(a, t)
        if a.op == "xor":
            pass
        return ("R", self.region(a)), a, None

    def version(self, st, cls):
        v = st.ver.get(cls)
        if v is None:
            if cls[0] in ("F", "G") and self.mod.clsname(cls) in STABLE:
                return 0
            if cls[0] == "A" or (cls[0] == "G" and self.mod.globals.get(cls[1], {}).get("tls")):
                return 0
            return st.epoch
        return v

    def load(self, st, a, sz, w, quiet=False):
        if a.op == "ite":
            return ite(a.args[0], self.load(st, a.args[1], sz, w), self.load(st, a.args[2], sz, w))
        cls, base, idx = self.resolve(a)
        return self.load_cell(st, cls, base, idx, sz, w)

    def load_cell(self, st, cls, base, idx, sz, w):
        v = st.mem.get((cls, base, idx))
        if v is not None and v.w == w:
            return v
        if v is None and base is not None and base.op == "ite" and cls[0] == "F":
            return ite(base.args[0], self.load_cell(st, cls, base.args[1], idx, sz, w), self.load_cell(st, cls, base.args[2], idx, sz, w))
        if cls[0] == "G" and idx is None:
            g = self.mod.globals.get(cls[1])
            if g and g.get("const") and "ints" in g and False:
                pass
        if cls[0] == "G":
            g = self.mod.globals.get(cls[1])
            if g and g.get("const"):
                if "ints" in g and (idx is None or is_c(idx)):
                    k = 0 if idx is None else cval(idx) // g["eltbytes"]
                    if sz == g["eltbytes"] and 0 <= k < len(g["ints"]):
                        return const(g["ints"][k], w)
                return leaf("ld", w, base if base is not None else cls[1], cls, idx, 0)
        if cls[0] == "R":
            return leaf("rd", w, base, cls[1], self.version(st, cls))
        return leaf("ld", w, base if base is not None else (cls[1] if cls[0] == "G" else "local"), cls, idx, self.version(st, cls))

    def distinct(self, st, cls, b1, i1, b2, i2):
        """cells of one class that cannot alias"""
        if b1 is b2 and i1 is not None and i2 is not None:
            d = sub(i1, i2)
            if d.op == "c" and d.args[0] != 0:
                return True
        if b1 is b2 and i1 is i2:
            return False
        if b1 is not None and b2 is not None:
            d = sub(b1, b2)
            if d.op == "c" and d.args[0] != 0 and i1 is None and i2 is None:
                return True
            f1, f2 = self.fresh(b1), self.fresh(b2)
            if f1 is not None or f2 is not None:
                if f1 is not f2 and (f1 is None or f2 is None or not self.roots(f1) & self.roots(f2)):
                    return True
        return False

    def fresh(self, b):
        """the mmap/alloca result this address is based on, if any"""
        if b.op == "lin":
            for t, k in b.args[1]:
                if k == 1:
                    f = self.fresh(t)
                    if f is not None:
                        return f
            return None
        if b.op == "leaf":
            if b.args[0] == "alloca":
                return b
            if b.args[0] == "call" and b.args[1] == "mmap":
                return b
        if b.op == "fld":
            return self.fresh(b.args[0])
        if b.op == "ite":
            x, y = b.args[1], b.args[2]
            if is_c(x):
                return self.fresh(y)
            f = self.fresh(x)
            if f is not None:
                g = f if is_c(y) else self.fresh(y)
                if g is f:
                    return f
                if g is not None:             # one of several mappings
                    return b
        return None

    def roots(self, f):
        """the mappings a result of fresh() stands for"""
        if f.op != "ite":
            return {f}
        return self.roots(self.fresh(f.args[1])) | self.roots(self.fresh(f.args[2]))

    def point(self):
        f, i = self.stack[-1]
        return (self.cid(), i["id"] if i else -1)

    def logwrite(self, cls):
        for s in self.loopstack:
            s.add(cls)

    def store(self, st, a, v, sz, soft=False):
        if a.op == "ite":
            c = a.args[0]
            for arm, cc in ((a.args[1], c), (a.args[2], neg(c))):
                old = self.load(st, arm, sz, v.w)
                self.store(st, arm, ite(cc, v, old), sz)
            return
        cls, base, idx = self.resolve(a)
        self.store_cell(st, cls, base, idx, v)

    def store_cell(self, st, cls, base, idx, v):
        self.logwrite(cls)
        if cls[0] == "A" or (cls[0] == "G" and idx is None):
            st.mem[(cls, base, idx)] = v
            if idx is None:
                for k in [k for k in st.mem if k[0] == cls and k[2] is not None]:
                    del st.mem[k]
            else:
                for k in [k for k in st.mem if k[0] == cls and k[2] is not idx and not self.distinct(st, cls, k[1], k[2], base, idx)]:
                    del st.mem[k]
                st.ver[cls] = self.point()
            return
        weak = self.rule.weak and cls[0] == "F" and base is not None and self.mod.clsname(cls) in self.rule.weak
        for k in [k for k in st.mem if k[0] == cls]:
            if not (k[1] is base and k[2] is idx) and not self.distinct(st, cls, k[1], k[2], base, idx):
                if weak and idx is None and k[2] is None and k[1] is not None and st.mem[k].w == v.w:
                    st.mem[k] = ite(eq(k[1], base), v, st.mem[k])
                else:
                    del st.mem[k]
        if cls == ("R", "unk"):
            for k in [k for k in st.mem if k[0][0] == "R"]:
                del st.mem[k]
        if not (base is not None and self.fresh(base) is not None):
            st.ver[cls] = self.point()
        st.mem[(cls, base, idx)] = v

    def havoc_cls(self, st, cls, tag):
        for k in [k for k in st.mem if k[0] == cls]:
            del st.mem[k]
        st.ver[cls] = tag

    def havoc_locked(self, st, tag):
        """another thread may have changed everything that is not stable"""
        for k in list(st.mem):
            c = k[0]
            if c[0] == "A":
                continue
            if c[0] == "G" and self.mod.globals.get(c[1], {}).get("tls"):
                continue
            if c[0] == "F" and c[1] == "_tzc":
                continue
            n = self.mod.clsname(c)
            if n in STABLE:
                continue
            if k[1] is not None and self.fresh(k[1]) is not None:
                continue
            del st.mem[k]
        for c in list(st.ver):
            if c[0] == "A" or (c[0] == "G" and self.mod.globals.get(c[1], {}).get("tls")):
                continue
            if c[0] == "F" and c[1] == "_tzc":
                continue
            if self.mod.clsname(c) in STABLE:
                continue
            del st.ver[c]
        st.epoch = tag

    # ---- merging
    def merge(self, a, b, tag):
        """a, b: states with equal keys; result in a new state"""
        self.stats["merges"] += 1
        common = a.facts & b.facts
        d1 = a.facts - common
        d2 = b.facts - common
        c1, c2 = conj(list(d1)), conj(list(d2))
        if len(d1) <= len(d2):
            gate = c1
        else:
            gate = neg(c2)
        s = State()
        s.auto, s.held = a.auto, a.held
        dj = disj([c1, c2])
        facts = set(common)
        if dj.op == "all":
            facts.update(dj.args[0])
        elif dj.op != "c":
            facts.add(dj)
        s.facts = frozenset(facts)

        def gated(x, y):
            if x is y:
                return x
            if gate.op == "c":
                t = leaf("join", x.w, tag, x, y)
                return t
            return ite(gate, x, y)
        env = {}
        be = b.env
        for k, x in a.env.items():
            y = be.get(k)
            if y is not None:
                env[k] = x if x is y else (gated(x, y) if x.w == y.w else x)
        s.env = env
        s.epoch = a.epoch if a.epoch == b.epoch else ("j", tag)
        s.ver = {}
        for c in set(a.ver) | set(b.ver):
            v1, v2 = self.version(a, c), self.version(b, c)
            if v1 == v2:
                s.ver[c] = v1
            else:
                s.ver[c] = ("j", tag)
        if a.epoch != b.epoch:
            pass
        s.mem = {}
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            w = (x or y).w
            if x is None:
                x = self.load_cell(a, k[0], k[1], k[2], w // 8, w)
            if y is None:
                y = self.load_cell(b, k[0], k[1], k[2], w // 8, w)
            if x.w != y.w:
                continue
            s.mem[k] = gated(x, y)
        return s

    # ---- execution
    def exec_fn(self, fn, args, st):
        """returns [(state, return term, ret instr)] one per merge key"""
        self.stats["functions"].add(fn.name)
        caller_env = st.env
        s0 = st.copy()
        s0.env = {k: a for k, a in enumerate(args)}
        self.stack.append((fn.name, None))
        pend = {0: {s0.key(): s0}}
        heap = [(fn.rpo[0], 0)]
        rets = {}
        self.run_blocks(fn, pend, heap, rets, None)
        self.stack.pop()
        out = []
        for s, v, ri in rets.values():
            s.env = caller_env
            out.append((s, v, ri))
        return out

    def run_blocks(self, fn, pend, heap, rets, region):
        """region None: the whole function; otherwise (header, body): run the
        body once, pass states leaving it to the caller through pend/heap"""
        done_headers = {}
        while heap:
            _, b = heappop(heap)
            if region is not None and b not in region[1]:
                continue
            states = pend.pop(b, None)
            if not states:
                continue
            for key in sorted(states, key=repr):
                st = states[key]
                if b in fn.loops and (region is None or b != region[0]):
                    self.exec_loop(fn, b, st, pend, heap, rets)
                    continue
                for s, succ in self.exec_block(fn, b, st, rets):
                    self.arrive(fn, b, succ, s, pend, heap, region)

    def arrive(self, fn, b, succ, s, pend, heap, region):
        if (b, succ) in fn.back:
            if region is not None and succ == region[0]:
                s = s.copy()
                s.nx = []
                for i in fn.blocks[succ]:
                    if i["op"] != "phi":
                        break
                    for pb, o in i["in"]:
                        if pb == b:
                            s.nx.append((i["id"], self.val(fn, s, o, i["ty"])))
                            break
                region[2].append(s)
                return
            # a back edge of an outer loop: handled by the outer region
            if region is not None:
                region[3].append((b, succ, s))
                return
            return
        s2 = s
        env = dict(s.env)
        for i in fn.blocks[succ]:
            if i["op"] != "phi":
                break
            for pb, o in i["in"]:
                if pb == b:
                    env[i["id"]] = self.val(fn, s, o, i["ty"])
                    break
        s2 = s.copy()
        s2.env = env
        if region is not None and succ not in region[1]:
            region[4].append((succ, s2))
            return
        self.put(fn, succ, s2, pend, heap)

    def put(self, fn, succ, s2, pend, heap):
        m = pend.setdefault(succ, {})
        if not m:
            heappush(heap, (fn.rpo[succ], succ))
        k = s2.key()
        if k in m:
            m[k] = self.merge(m[k], s2, (self.cid(), succ, repr(k)))
        else:
            m[k] = s2

    def exec_loop(self, fn, h, st, pend, heap, rets):
        lk = (fn.name, h)
        mods = self.loopmods.setdefault(lk, set())
        body = fn.loops[h]
        mark = len(self.trace) if self.trace is not None else 0
        for attempt in range(6):
            if self.trace is not None:
                del self.trace[mark:]
            self.loopstack.append(set())
            self.loops_in.append((self.cid(), h))
            results = self.loop_once(fn, h, body, st, mods)
            self.loops_in.pop()
            wr = self.loopstack.pop()
            new = wr - mods
            if not new:
                break
            mods |= new
        lrets, outer_back, exits, backs = results
        if self.trace is not None:
            for s, n in backs:
                self.trace.append(Event("backedge", s=s, base=n, facts=s.facts, loop=(self.cid(), h), loc=self.loc(), nest=self.nest() + ((self.cid(), h),)))
            for succ, s in exits:
                self.trace.append(Event("exit", s=s, facts=s.facts, loop=(self.cid(), h), loc=self.loc(), nest=self.nest()))
            for s, v, ri in lrets:
                self.trace.append(Event("exit", s=s, facts=s.facts, loop=(self.cid(), h), loc=self.loc(), nest=self.nest()))
        hook = getattr(self.rule, "backedge", None)
        if hook:
            self.stack[-1] = (fn.name, fn.blocks[h][-1])
            for s, n in backs:
                hook(self, s, n)
        for s, v, ri in lrets:
            self.add_ret(rets, s, v, ri)
        # leaving states
        reg = getattr(self, "cur_region", None)
        for succ, s in exits:
            if reg is not None and succ not in reg[1]:
                reg[4].append((succ, s))
            else:
                self.put(fn, succ, s, pend, heap)
        if outer_back and reg is not None:
            for (b, succ, s) in outer_back:
                if succ == reg[0]:
                    s = s.copy()
                    s.nx = []
                    for i in fn.blocks[succ]:
                        if i["op"] != "phi":
                            break
                        for pb, o in i["in"]:
                            if pb == b:
                                s.nx.append((i["id"], self.val(fn, s, o, i["ty"])))
                                break
                    reg[2].append(s)
                else:
                    reg[3].append((b, succ, s))

    def nest(self):
        return tuple(self.loops_in)

    def loop_once(self, fn, h, body, st, mods):
        cid = self.cid()
        base = st.copy()
        tag = ("l", cid, h)
        if self.trace is not None:
            self.entered.setdefault((cid, h), []).append({k: v for k, v in st.mem.items() if k[0] in mods})
        for c in mods:
            self.havoc_cls(base, c, tag)
        env = dict(base.env)
        mono = []
        for i in fn.blocks[h]:
            if i["op"] != "phi":
                break
            init = env.get(i["id"])
            t = leaf("loop", tyw(i["ty"]), cid, h, i["id"])
            if i["ty"] == "ptr":
                t.prov = self.region(init) if init is not None else "unk"
            env[i["id"]] = t
            t.init = init
            if init is not None:
                k = self.mono(fn, i, body)
                if k:
                    mono.append(neg(ult(t, init)) if k == 1 else neg(ult(init, t)))
        base.env = env
        for f in mono:
            self.learn(base, f)
        seen = {}
        lrets = {}
        outer_back = []
        exits = []
        backs = []
        work = [base]
        while work:
            s0 = work.pop()
            k0 = s0.key()
            if k0 in seen:
                continue
            seen[k0] = 1
            region = (h, body, [], outer_back, exits)
            save = getattr(self, "cur_region", None)
            self.cur_region = region
            pend = {h: {k0: s0}}
            heap = [(fn.rpo[h], h)]
            self.run_blocks(fn, pend, heap, lrets, region)
            self.cur_region = save
            for s in region[2]:
                n = base.copy()
                n.auto, n.held = s.auto, s.held
                s.nx = [(env[i], v) for i, v in s.nx if i in env]
                for t, v in s.nx:
                    d = sub(v, t) if v.w == t.w else None
                    k = signed(cval(d), d.w) if d is not None and d.op == "c" else 0
                    if t.step is None or t.step == k or k == 0 and v is t:
                        t.step = k or t.step
                    else:
                        t.step = 0
                backs.append((s, n))
                if s.key() not in seen:
                    work.append(n)
        return list(lrets.values()), outer_back, exits, backs

    def mono(self, fn, phi, body):
        """1: never decreases, -1: never increases, along every back edge"""
        r = None
        for pb, o in phi["in"]:
            if pb not in body:
                continue
            if not o or o[0] != "v":
                return 0
            d = fn.defs.get(o[1])
            if not d:
                return 0
            i = d[1]
            if i["op"] == "add" and ["v", phi["id"]] in i["ops"]:
                other = [x for x in i["ops"] if x != ["v", phi["id"]]]
                if len(other) == 1 and other[0][0] == "c":
                    v = int(other[0][1])
                    v = tm.signed(v & ((1 << tyw(phi["ty"])) - 1), tyw(phi["ty"]))
                    k = 1 if v >= 0 else -1
                elif len(other) == 1:
                    k = 1 if self.positive(fn, other[0]) else 0
                else:
                    return 0
            elif i["id"] == phi["id"]:
                continue
            else:
                return 0
            if r is not None and r != k:
                return 0
            r = k
        return r or 0

    def positive(self, fn, o):
        """an increment computed as an alignment round-up (x & ~mask)"""
        d = fn.defs.get(o[1]) if o[0] == "v" else None
        return bool(d and d[1]["op"] in ("and", "zext", "lshr"))

    def add_ret(self, rets, s, v, ri):
        k = s.key()
        if k in rets:
            s1, v1, r1 = rets[k]
            e1, e2 = s1.env, s.env
            s1.env = {"rv": v1} if v1 is not None else {}
            s2 = s.copy()
            s2.env = {"rv": v} if v is not None else {}
            m = self.merge(s1, s2, (self.cid(), "ret", repr(k)))
            rets[k] = (m, m.env.get("rv"), ri)
            m.env = {}
        else:
            rets[k] = (s, v, ri)

    def val(self, fn, st, o, ty=None):
        k = o[0]
        if k == "v":
            v = st.env.get(o[1])
            if v is None:
                v = leaf("undef", tyw(ty) if ty else 64, self.cid(), o[1])
            return v
        if k == "c":
            return const(int(o[1]), int(o[2]))
        if k == "g":
            return leaf("g", 64, o[1])
        if k == "f":
            return leaf("fn", 64, o[1])
        if k == "z":
            return const(0, tyw(ty) if ty else 64)
        if k == "x":
            m = ITOP.search(str(o[1]))
            if m:
                return const(int(m.group(1)), 64)
        return leaf("undef", tyw(ty) if ty else 64, self.cid(), k)

    def exec_block(self, fn, b, st, rets):
        """returns [(state, successor)]"""
        self.stats["blocks"] += 1
        st = st.copy()
        st.env = dict(st.env)
        out = []
        self.exec_from(fn, b, 0, st, rets, out)
        return out

    def exec_from(self, fn, b, start, st, rets, out):
        blk = fn.blocks[b]
        n = len(blk)
        k = start
        while k < n:
            i = blk[k]
            op = i["op"]
            self.stack[-1] = (fn.name, i)
            if op == "phi":
                k += 1
                continue
            if op == "br":
                if not i["ops"]:
                    out.append((st, i["succ"][0]))
                    return
                c = self.val(fn, st, i["ops"][0], "i1")
                d = self.decide(st, c)
                if d == 1:
                    out.append((st, i["succ"][0]))
                    return
                if d == 0:
                    out.append((st, i["succ"][1]))
                    return
                s1, s2 = st, st.copy()
                if self.learn(s2, neg(c)):
                    ok2 = True
                else:
                    ok2 = False
                if self.learn(s1, c):
                    out.append((s1, i["succ"][0]))
                if ok2:
                    out.append((s2, i["succ"][1]))
                return
            if op == "switch":
                c = self.val(fn, st, i["ops"][0])
                dflt = st.copy()
                alive = True
                tgt = {}
                for cv, t in i["cases"]:
                    e = eq(c, self.val(fn, st, cv))
                    tgt.setdefault(t, []).append(e)
                    if not self.learn(dflt, neg(e)):
                        alive = False
                for t, es in tgt.items():
                    s = st.copy()
                    if self.learn(s, disj(es)):
                        out.append((s, t))
                if alive:
                    out.append((dflt, i["def"]))
                return
            if op == "ret":
                v = self.val(fn, st, i["ops"][0], fn.ret) if i["ops"] else None
                self.add_ret(rets, st, v, i)
                return
            if op == "unreachable":
                return
            if op in ("call", "invoke"):
                succ = self.exec_call(fn, st, i)
                if op == "invoke":
                    for s in succ:
                        out.append((s, i["succ"][0]))
                    return
                if len(succ) == 1:
                    st = succ[0]
                    k += 1
                    continue
                for s in succ:
                    self.stack[-1] = (fn.name, i)
                    self.exec_from(fn, b, k + 1, s, rets, out)
                return
            if op == "atomicrmw":
                a = self.val(fn, st, i["ops"][0], "ptr")
                v = self.val(fn, st, i["ops"][1], i["ty"])
                w = tyw(i["ty"])
                if i["rmw"] == "xchg":
                    s2 = st.copy()
                    s2.env = dict(st.env)
                    s2.env[i["id"]] = const(1, w)
                    self.do_lock(st, a, i)
                    st.env[i["id"]] = const(0, w)
                    self.exec_from(fn, b, k + 1, s2, rets, out)
                    self.stack[-1] = (fn.name, i)
                else:
                    st.env[i["id"]] = leaf("rmw", w, self.cid(), i["id"])
                    self.store(st, a, leaf("rmw2", w, self.cid(), i["id"]), w // 8)
                k += 1
                continue
            self.simple(fn, st, i)
            k += 1

    def lockname(self, a):
        # an atomic_flag is a structure: name the flag, not its only member
        while a.op == "fld" and not (a.args[1] in self.mod.structs and a.args[1].startswith("iso_")):
            a = a.args[0]
        cls, base, idx = self.resolve(a)
        return self.mod.clsname(cls)

    def do_lock(self, st, a, i):
        n = self.lockname(a)
        self.emit(st, Event("lock", lock=n, addr=a, held=st.held))
        st.held = st.held | {n}
        for s in self.loopstack:
            s.add(("L",))
        self.havoc_locked(st, ("k",) + self.point())

    def do_unlock(self, st, a, i):
        n = self.lockname(a)
        self.emit(st, Event("unlock", lock=n, addr=a, held=st.held))
        st.held = st.held - {n}

    def simple(self, fn, st, i):
        op = i["op"]
        self.stats["instrs"] += 1
        ops = i["ops"]
        V = self.val
        if op == "load":
            a = V(fn, st, ops[0], "ptr")
            w = i["sz"] * 8
            tw = tyw(i["ty"])
            v = self.load(st, a, i["sz"], w if w >= tw else tw)
            if v.w != tw:
                v = trunc(v, tw)
            st.env[i["id"]] = v
            self.emit(st, Event("load", addr=a, value=v, size=i["sz"], atomic=i.get("atomic", False)))
        elif op == "store":
            v = V(fn, st, ops[0], i["vty"])
            a = V(fn, st, ops[1], "ptr")
            w = i["sz"] * 8
            if v.w < w:
                v = zext(v, w)
            if i.get("atomic") and is_c(v, 0) and i["sz"] == 1:
                self.do_unlock(st, a, i)
                return
            ev = Event("store", addr=a, value=v, size=i["sz"], atomic=i.get("atomic", False), old=None)
            ev.old = self.load(st, a, i["sz"], v.w)
            self.emit(st, ev)
            self.store(st, a, v, i["sz"])
        elif op == "gep":
            t = V(fn, st, ops[0], "ptr")
            for p in i["path"]:
                if p[0] == "f":
                    if t.op == "leaf" and t.args[0] == "loop" and t.info is None:
                        t.info = canon(p[1])
                    elif t.op == "xor":
                        for x in t.args[1]:
                            if x.op == "leaf" and x.args[0] == "loop" and x.info is None:
                                x.info = "x:" + canon(p[1])
                    t = fld(t, canon(p[1]), p[2], p[3])
                else:
                    ix = V(fn, st, p[2])
                    if ix.w < 64:
                        ix = sext(ix, 64)
                    nt = add(t, scale(ix, p[1]))
                    t = nt
            if i.get("inb") and t.op != "leaf" and t.op != "c":
                t.nz = True
            st.env[i["id"]] = t
        elif op == "icmp":
            a = V(fn, st, ops[0], "i%d" % i["w"])
            c = V(fn, st, ops[1], "i%d" % i["w"])
            if a.w != c.w:
                st.env[i["id"]] = leaf("undef", 1, self.cid(), i["id"])
            else:
                st.env[i["id"]] = icmp(i["pred"], a, c)
        elif op in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a = V(fn, st, ops[0], i["ty"])
            c = V(fn, st, ops[1], i["ty"])
            if a.w != c.w:
                st.env[i["id"]] = leaf("undef", tyw(i["ty"]), self.cid(), i["id"])
                return
            f = {"add": add, "sub": sub, "mul": mul, "xor": xor, "and": band, "or": bor, "shl": shl, "lshr": lshr,
                 "ashr": ashr, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem}[op]
            st.env[i["id"]] = f(a, c)
            if op in ("udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr"):
                self.emit(st, Event("arith", op=op, a=a, b=c))
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "freeze"):
            a = V(fn, st, ops[0], i.get("from"))
            w = tyw(i["ty"])
            if op == "sext":
                st.env[i["id"]] = sext(a, w) if w > a.w else a
            elif a.w < w:
                st.env[i["id"]] = zext(a, w)
            elif a.w > w:
                st.env[i["id"]] = trunc(a, w)
            else:
                st.env[i["id"]] = a
        elif op == "select":
            c = V(fn, st, ops[0], "i1")
            a, b2 = V(fn, st, ops[1], i["ty"]), V(fn, st, ops[2], i["ty"])
            st.env[i["id"]] = ite(c, a, b2) if c.w == 1 and a.w == b2.w else leaf("undef", tyw(i["ty"]), self.cid(), i["id"])
        elif op == "alloca":
            t = leaf("alloca", 64, i.get("name") or "", self.cid(), i["id"])
            t.nz = True
            t.info = i["size"]
            st.env[i["id"]] = t
        elif op == "extractvalue":
            a = V(fn, st, ops[0])
            if isinstance(a.info, tuple) and i["idx"] < len(a.info):
                st.env[i["id"]] = a.info[i["idx"]]
            else:
                st.env[i["id"]] = leaf("ev", tyw(i["ty"]), a, i["idx"])
        elif op == "cmpxchg":
            st.env[i["id"]] = leaf("cx", 64, self.cid(), i["id"])
        else:
            st.env[i["id"]] = leaf("undef", tyw(i["ty"]), self.cid(), i["id"])

    def exec_call(self, fn, st, i):
        """returns the successor states (none: the call does not return)"""
        name = i["fn"]
        args = [self.val(fn, st, o) for o in i["ops"]]
        V = args
        w = tyw(i["ty"]) if i["ty"] != "void" else 0

        def res(v):
            st.env[i["id"]] = v
            return [st]

        if name is None:
            self.emit(st, Event("call", fn=None, args=args, noreturn=False))
            if w:
                res(leaf("call", w, "<indirect>", self.cid(), i["id"]))
            return [st]
        if name.startswith("llvm."):
            n = name[5:]
            if n.startswith("memset"):
                self.mem_event(st, "memset", V[0], V[1], V[2])
                return [st]
            if n.startswith("memcpy") or n.startswith("memmove"):
                self.mem_event(st, "memcpy", V[0], V[1], V[2])
                return [st]
            if n.startswith("expect") or n.startswith("threadlocal") or n.startswith("launder") or n.startswith("ptrmask"):
                return res(V[0])
            if n.startswith("bswap"):
                return res(bswap(V[0]))
            if ".with.overflow" in n:
                t = leaf("ovf", 64, n, V[0], V[1])
                if n.startswith("umul"):
                    t.info = (mul(V[0], V[1]), umulov(V[0], V[1]))
                elif n.startswith("uadd"):
                    s = add(V[0], V[1])
                    t.info = (s, ult(s, V[0]))
                elif n.startswith("usub"):
                    t.info = (sub(V[0], V[1]), ult(V[0], V[1]))
                else:
                    t.info = None
                return res(t)
            if n.startswith("trap"):
                self.emit(st, Event("abort", fn=name))
                return []
            if w:
                return res(leaf("call", w, name, self.cid(), i["id"]))
            return [st]
        if name in LOCKS:
            if LOCKS[name]:
                self.do_lock(st, V[0], i)
            else:
                self.do_unlock(st, V[0], i)
            return res(const(0, 32))
        f = self.mod.funcs.get(name)
        if f is None or f.decl or f.vararg or name in self.opaque:
            if f is not None and f.decl is False:
                self.stats["opaque"].add(name)
            if name in ("memset", "__memset_chk"):
                self.mem_event(st, "memset", V[0], trunc(V[1], 8), V[2])
                return res(V[0])
            if name in ("memcpy", "memmove", "__memcpy_chk", "__memmove_chk"):
                self.mem_event(st, "memcpy", V[0], V[1], V[2])
                return res(V[0])
            ret = leaf("call", w, name, self.cid(), i["id"]) if w else None
            dead = (i.get("noret") or name in NORETURN or (f is not None and f.noreturn and f.decl))
            if dead:
                self.emit(st, Event("abort", fn=name, args=args))
                return []
            self.emit(st, Event("call", fn=name, args=args, noreturn=False, ret=ret, vararg=bool(f and f.vararg)))
            if not (f and f.vararg):
                for a in args:
                    if a.w == 64:
                        fr = self.fresh(a)
                        if fr is not None and fr.args[0] == "alloca":
                            self.logwrite(("A", fr))
                            self.havoc_cls(st, ("A", fr), ("x",) + self.point())
            if ret is not None:
                return res(ret)
            return [st]
        # internal call: enter it
        depth = sum(1 for x, _ in self.stack if x == name)
        if depth >= 2 or len(self.stack) > self.MAXDEPTH:
            self.stats["opaque"].add("recursion:" + name)
            self.emit(st, Event("recursion", fn=name, args=args))
            if w:
                return res(leaf("call", w, name, self.cid(), i["id"]))
            return [st]
        self.emit(st, Event("enter", fn=name, args=args))
        octx = self.ctx
        oreg = getattr(self, "cur_region", None)
        self.cur_region = None
        self.ctx = octx + ((fn.name, i["id"]),)
        outs = self.exec_fn(f, args, st)
        self.ctx = octx
        self.cur_region = oreg
        self.stack[-1] = (fn.name, i)
        r = []
        for s, v, _ in outs:
            s.env = dict(st.env)
            if v is not None:
                s.env[i["id"]] = v
            self.emit(s, Event("leave", fn=name, args=args, value=v))
            r.append(s)
        return r

    def mem_event(self, st, kind, dst, x, n):
        self.emit(st, Event(kind, addr=dst, arg=x, n=n))
        arms = []
        wk = [dst]
        seen = set()
        while wk:
            d = wk.pop()
            if d in seen:
                continue
            seen.add(d)
            if d.op == "ite" and len(seen) < 64:
                wk += [d.args[1], d.args[2]]
            else:
                arms.append(d)
        for d in arms:
            if is_c(d):
                continue
            self.mem_write(st, kind, d, x, n, strong=len(arms) == 1)

    def mem_write(self, st, kind, dst, x, n, strong):
        cls, base, idx = self.resolve(dst)
        tag = ("m",) + self.point()
        if cls[0] == "A":
            self.logwrite(cls)
            self.havoc_cls(st, cls, tag)
            return
        if cls[0] == "G":
            self.logwrite(cls)
            self.havoc_cls(st, cls, tag)
            # typed views of the same global
            for k in list(st.mem):
                if k[1] is not None and self.rootg(k[1]) == cls[1]:
                    self.logwrite(k[0])
                    self.havoc_cls(st, k[0], tag)
            for c in list(st.ver):
                if c[0] == "F" and c[1] == "_tzc":
                    self.havoc_cls(st, c, tag)
            for s_, sd in self.mod.structs.items():
                if s_ == "_tzc" or ("g:" + cls[1]) == "g:zone_cache":
                    if s_ == "_tzc":
                        for fi in range(len(sd["fields"])):
                            self.logwrite(("F", s_, fi))
                            self.havoc_cls(st, ("F", s_, fi), tag)
            return
        if cls[0] == "F":
            # a field, or an array inside a structure
            self.logwrite(cls)
            for k in [k for k in st.mem if k[0] == cls]:
                if not self.distinct(st, cls, k[1], None, base, None) or k[1] is base:
                    del st.mem[k]
            st.ver[cls] = tag
            return
        if is_c(n) and cval(n) in self.mod.sizes and len(self.mod.sizes[cval(n)]) == 1:
            S = self.mod.sizes[cval(n)][0]
            for fi, f in enumerate(self.mod.structs[S]["fields"]):
                c = ("F", S, fi)
                fresh = self.fresh(dst) is not None
                self.logwrite(c)
                for k in [k for k in st.mem if k[0] == c]:
                    if k[1] is dst or not self.distinct(st, c, k[1], None, dst, None):
                        del st.mem[k]
                if not fresh:
                    st.ver[c] = tag
                if strong and kind == "memset" and is_c(x) and (f[3] == "p" or f[3].startswith("i")):
                    w = 64 if f[3] == "p" else int(f[3][1:])
                    by = cval(x) & 0xff
                    w8 = (w + 7) // 8 * 8
                    st.mem[(c, dst, None)] = const(int.from_bytes(bytes([by] * (w8 // 8)), "little"), w8)
            return
        self.logwrite(cls)
        if cls == ("R", "unk"):
            for k in [k for k in st.mem if k[0][0] == "R"]:
                del st.mem[k]
        self.havoc_cls(st, cls, tag)
        if cls[1].startswith("p:zone_cache"):
            for k in [k for k in st.mem if k[0][0] == "F" and k[0][1] == "_tzc"]:
                self.havoc_cls(st, k[0], tag)

    def rootg(self, b):
        if b.op == "leaf" and b.args[0] == "g":
            return b.args[1]
        if b.op == "lin":
            for t, k in b.args[1]:
                if k == 1:
                    r = self.rootg(t)
                    if r:
                        return r
        if b.op == "fld":
            return self.rootg(b.args[0])
        return None


def umulov(a, b):
    if a.op == "c" and b.op == "c":
        return TRUE if (a.args[0] * b.args[0]) >> a.w else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("umulov", 1, a, b)
