from .common import *

TITLE = "the allocator cannot deadlock on its own locks"
RULE = """Lock-order dataflow over every entry point of every configuration: each acquisition records the set of locks already held; the union
over all entries and configurations must be an acyclic relation, no lock may be acquired while it is held, and while any lock is held no
external function is called that may itself allocate, block on a user lock or run user code (list ALLOCATES)."""
CONFIGS_QUICK = ["default", "release", "cpp", "sanity", "tagging", "profiler", "spinlock", "abortnull", "experimental", "uafsig", "zeroallocs",
                 "permrealloc"]
CONFIGS_THOROUGH = [c for c in ALL if c != "nothreads"]
MIN_SITES = {"acquisition": 20, "external call under a lock": 4}
ASSUMPTIONS = ["external functions not in ALLOCATES/SAFE do not call back into the allocator",
               "an unknown external function called under a lock is reported as a note, not as a violation"]

ALLOCATES = {"malloc", "calloc", "realloc", "free", "strdup", "strndup", "posix_memalign", "memalign", "aligned_alloc", "valloc", "reallocarray",
             "cfree", "malloc_usable_size", "printf", "fprintf", "vfprintf", "vprintf", "puts", "fopen", "fdopen", "fclose", "fwrite", "fputs",
             "fflush", "perror", "getline", "asprintf", "vasprintf", "opendir", "popen", "dlopen", "dlsym", "backtrace", "backtrace_symbols",
             "pthread_create", "pthread_join", "pthread_atfork", "atexit", "syslog", "setlocale", "qsort", "localtime", "getpwuid", "fork",
             "pthread_key_create", "pthread_setspecific", "setenv", "putenv", "system", "scandir", "getaddrinfo", "sleep", "usleep",
             "nanosleep", "poll", "select", "pthread_cond_wait", "sem_wait", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm",
             "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "sigwait", "pause", "wait", "waitpid", "exit"}
# an abort path may do what it likes: the process ends


class R(Rule):
    init = None

    def __init__(self, rep):
        self.rep = rep
        self.edges = rep.data.setdefault("edges", {})

    def event(self, I, st, ev):
        if ev.kind == "lock":
            self.rep.site("acquisition", site(I))
            if ev.lock in st.held:
                self.rep.violation("self-deadlock:%s:%s" % (ev.lock, fn_here(I)), "%s is acquired while already held" % ev.lock, I.loc(), I.where())
            for h in st.held:
                if h != ev.lock and (h, ev.lock) not in self.edges:
                    self.edges[(h, ev.lock)] = (I.loc(), I.where(), self.rep.config)
        elif ev.kind == "call" and st.held:
            if ev.fn is None:
                self.rep.violation("indirect-under-lock:%s" % fn_here(I), "indirect call while holding %s" % ", ".join(sorted(st.held)),
                                   I.loc(), I.where())
                return
            f = I.mod.funcs.get(ev.fn)
            own = f is not None and not f.decl
            self.rep.site("external call under a lock", "%s@%s" % (ev.fn, I.loc()))
            if ev.fn in ALLOCATES or (own and not ev.vararg):
                self.rep.violation("callout:%s:%s" % (ev.fn, fn_here(I)), "%s may re-enter the allocator or block and is called while holding %s"
                                   % (ev.fn, ", ".join(sorted(st.held))), I.loc(), I.where())
        elif ev.kind == "enter" and st.held and ev.fn in self.rep.data["public"]:
            # an entry point entered from inside: only a problem if it locks, which the acquisition itself shows
            pass


def units(m, tier):
    return split(m.entries(), 2)


def analyse(m, unit, rep, tier, seed):
    rep.data["public"] = set(m.exported())
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R(rep))
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
        rep.count("events", I.stats["events"])


def finish(reps, fin, tier):
    bycfg = {}
    for r in reps:
        bycfg.setdefault(r.config, {}).update({k: v for k, v in r.data["edges"].items() if k not in bycfg.get(r.config, {})})
    names = set()
    for cfg, edges in sorted(bycfg.items()):
        g = {}
        for (a, b) in edges:
            g.setdefault(a, set()).add(b)
            names.add("%s -> %s" % (a, b))

        def reach(a, b):
            seen, w = set(), [a]
            while w:
                x = w.pop()
                for y in g.get(x, ()):
                    if y == b:
                        return True
                    if y not in seen:
                        seen.add(y)
                        w.append(y)
            return False
        for (a, b), (loc, where, _) in sorted(edges.items()):
            if reach(b, a):
                fin.violation("cycle:%s:%s" % (a, b), "%s is acquired while holding %s, and elsewhere the other way round" % (b, a), loc, where,
                              "config %s; reverse: %s" % (cfg, "; ".join("%s->%s at %s" % (x, y, e[0]) for (x, y), e in sorted(edges.items()) if x == b)))
    for n in sorted(names):
        fin.notes.add("order " + n)
    fin.count("order edges", len(names))
