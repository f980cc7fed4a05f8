from .common import *

TITLE = "every call releases every internal lock it took, on every path"
RULE = """Lock-balance automaton (ESP property simulation) run along every path of the virtually inlined control-flow graph
of every exported function, constructor, destructor, handler and thread body: acquiring a lock already held, releasing one
not held, and returning with a lock held are violations.  Exempt by contract: iso_alloc_protect_root returns holding the
root lock, iso_alloc_unprotect_root releases it."""
CONFIGS_QUICK = ["default", "release", "cpp", "sanity", "tagging", "profiler", "spinlock", "init", "abortnull", "experimental", "uninit"]
CONFIGS_THOROUGH = ALL
MIN_SITES = {"acquire": 15, "release": 15, "entry": 55}
ASSUMPTIONS = ["pthread_mutex_lock/unlock and atomic_flag test-and-set/clear are the only lock primitives",
               "one generic iteration stands for every iteration of a loop"]


class R(Rule):
    init = None

    def __init__(self, rep):
        self.rep = rep

    def event(self, I, st, ev):
        rep = self.rep
        if ev.kind == "lock":
            rep.site("acquire", site(I))
            if ev.lock in st.held:
                rep.violation("self-deadlock:%s:%s" % (fn_here(I), ev.lock), "acquires %s while already holding it" % ev.lock,
                              I.loc(), I.where())
        elif ev.kind == "unlock":
            rep.site("release", site(I))
            if ev.lock not in st.held and not (I.entry == "iso_alloc_unprotect_root" and ev.lock in ("root_busy_mutex", "root_busy_flag")):
                rep.violation("unheld-release:%s:%s" % (fn_here(I), ev.lock), "releases %s which is not held on this path" % ev.lock,
                              I.loc(), I.where())
        elif ev.kind == "ret":
            rep.count("return states checked")
            held = set(st.held)
            if I.entry == "iso_alloc_protect_root":
                if not held & {"root_busy_mutex", "root_busy_flag"} and locks_of(I.mod):
                    rep.violation("protect-not-held", "iso_alloc_protect_root returns without the root lock", I.loc())
                held -= {"root_busy_mutex", "root_busy_flag"}
            for l in held:
                rep.violation("leaked:%s:%s" % (I.entry, l), "%s can return while still holding %s" % (I.entry, l), I.loc(), I.where(),
                              "branch facts on the path: " + "; ".join(show(f, 4) for f in sorted(st.facts, key=lambda x: x.id)[:12]))


def units(m, tier):
    return split(m.entries(), 2)


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.site("entry", e)
        rep.count("events", I.stats["events"])
