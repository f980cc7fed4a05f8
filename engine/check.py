#!/usr/bin/env python3
"""Driver:  check.py <property id> [--tier quick|thorough]

Compiles the configurations the property names from /repo's current sources,
runs the property's analysis on each, prints what was analysed, writes
evidence/<id>.json and exits 0 (held), 1 (VIOLATION line) or 2 (broken)."""
import argparse, importlib, json, os, shutil, sys, tempfile, time, traceback
import multiprocessing
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build

JOBS = int(os.environ.get("ISO_JOBS", "8"))


class Report(object):
    """what one work unit found"""

    def __init__(self, config, unit):
        self.config = config
        self.unit = unit
        self.viol = {}          # key -> dict(msg, loc, where, ...)
        self.counts = {}
        self.functions = set()
        self.sites = {}         # obligation kind -> set of source sites
        self.samples = []
        self.notes = set()
        self.data = {}          # property specific, merged by its finish()

    def violation(self, key, msg, loc="", where="", detail=""):
        if key not in self.viol:
            self.viol[key] = {"key": key, "msg": msg, "loc": loc, "where": where, "detail": detail,
                              "config": self.config, "unit": str(self.unit)}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def site(self, kind, loc):
        self.sites.setdefault(kind, set()).add(loc)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)


def run_unit(a):
    pid, cfg, unit, js, macros, tier, seed = a
    import interp, terms
    mod = importlib.import_module("rules." + pid)
    t = time.time()
    try:
        m = interp.Module(build.load_json(js), macros, cfg)
        rep = Report(cfg, unit)
        mod.analyse(m, unit, rep, tier, seed)
        rep.wall = time.time() - t
        return rep
    except Exception:
        return (cfg, unit, traceback.format_exc())


FORK = multiprocessing.get_context("fork")


def child(conn, task):
    try:
        conn.send(run_unit(task))
    finally:
        conn.close()


def in_child(task):
    for attempt in (1, 2):
        rd, wr = FORK.Pipe(False)
        p = FORK.Process(target=child, args=(wr, task))
        p.start()
        wr.close()
        r = None
        try:
            while True:
                if rd.poll(0.25):
                    r = rd.recv()
                    break
                if not p.is_alive():
                    if rd.poll(0):
                        r = rd.recv()
                    break
        except EOFError:
            pass
        rd.close()
        p.join()
        if r is not None:
            return r
    return (task[1], task[2], "work unit process ended without a result (exit %s)" % p.exitcode)


def known_findings(pid):
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith("known: "):
                continue
            f = l[7:].split(None, 2)
            if f[0] == "property=" + pid and len(f) >= 2 and f[1].startswith("key="):
                r[f[1][4:]] = f[2] if len(f) > 2 else ""
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--config", action="append")
    ap.add_argument("--unit")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("rules." + a.pid)
    cfgs = list(mod.CONFIGS_QUICK if tier == "quick" else mod.CONFIGS_THOROUGH)
    if a.config:
        cfgs = a.config
    work = tempfile.mkdtemp(prefix="isoverif.")
    rc = 2
    try:
        rc = run(a, mod, tier, seed, t0, cfgs, work)
    except build.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (a.pid, e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(a, mod, tier, seed, t0, cfgs, work):
    import interp
    build.irdump_path()
    with ThreadPoolExecutor(min(4, len(cfgs))) as ex:
        comp = dict(zip(cfgs, ex.map(lambda c: build.compile_config(c, work), cfgs)))
    tasks = []
    nfiles = 0
    for c in cfgs:
        js, macros, n = comp[c]
        nfiles += n
        m = interp.Module(build.load_json(js), macros, c)
        us = mod.units(m, tier)
        if a.unit:
            us = [a.unit.split(",")]
        for u in us:
            tasks.append((a.pid, c, u, js, macros, tier, seed))
    reps = []
    broken = []
    # one fresh process per work unit: a unit's result must not depend on which
    # units happened to run before it (term numbering feeds the valuations)
    with ThreadPoolExecutor(min(JOBS, max(1, len(tasks)))) as ex:
        for r in ex.map(in_child, tasks):
            if isinstance(r, tuple):
                broken.append(r)
            else:
                reps.append(r)
    if broken:
        for c, u, tb in broken[:3]:
            print("internal error in %s/%s:\n%s" % (c, u, tb))
        raise build.AnalysisBroken("%d work units failed" % len(broken))
    fin = Report("*", "*")
    if hasattr(mod, "finish"):
        mod.finish(reps, fin, tier)
    viol = {}
    counts, sites, funcs, samples, notes = {}, {}, set(), [], set()
    for r in reps + [fin]:
        for k, v in r.viol.items():
            viol.setdefault(k, v)
        for k, n in r.counts.items():
            counts[k] = counts.get(k, 0) + n
        for k, s in r.sites.items():
            sites.setdefault(k, set()).update(s)
        funcs |= r.functions
        for s in r.samples:
            if len(samples) < 6 and s not in samples:
                samples.append(s)
        notes |= r.notes
    # vacuity: the rule must have met at least the instances confirmed by hand
    for k, n in getattr(mod, "MIN_SITES", {}).items():
        if len(sites.get(k, ())) < n and not a.config and not a.unit:
            raise build.AnalysisBroken("only %d sites of kind '%s' found, expected at least %d: the rule no longer matches the code"
                                       % (len(sites.get(k, ())), k, n))
    for k, n in getattr(mod, "MIN_COUNTS", {}).items():
        if counts.get(k, 0) < n and not a.config and not a.unit and not viol:
            raise build.AnalysisBroken("count '%s' is %d, expected at least %d" % (k, counts.get(k, 0), n))
    known = known_findings(a.pid)
    new = {k: v for k, v in viol.items() if k not in known}
    print("property %s (%s): %s" % (a.pid, tier, mod.TITLE))
    print("rule: %s" % " ".join(mod.RULE.split()))
    print("configurations: %d (%s), %d translation units, %d functions entered, %d work units" %
          (len(cfgs), " ".join(cfgs), nfiles, len(funcs), len(tasks)))
    for k in sorted(counts):
        print("  %-40s %d" % (k, counts[k]))
    for k in sorted(sites):
        print("  sites: %-33s %d" % (k, len(sites[k])))
        if a.v:
            for s in sorted(sites[k]):
                print("      " + s)
    for n in sorted(notes):
        print("  note: " + n)
    for k in sorted(viol):
        if k in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (a.pid, known[k] or viol[k]["msg"], k))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, a.pid + ".txt")
    if os.path.exists(replay):
        os.unlink(replay)
    if new:
        with open(replay, "w") as f:
            for k in sorted(new):
                v = new[k]
                f.write("property %s\nkey      %s\nat       %s\nwhat     %s\nconfig   %s\nunit     %s\npath     %s\n%s\nre-run   python3 engine/check.py %s --config %s\n\n" %
                        (a.pid, k, v["loc"], v["msg"], v["config"], v["unit"], v["where"], v["detail"], a.pid, v["config"]))
        for k in sorted(new)[:40]:
            v = new[k]
            print("  %s: %s  [config %s] key=%s" % (v["loc"], v["msg"], v["config"], k))
            if v["where"]:
                print("      via %s" % v["where"][-600:])
            if v["detail"]:
                print("      " + v["detail"][:1200].replace("\n", "\n      "))
    cov = {
        "explanation": " ".join(mod.RULE.split()),
        "configurations": cfgs,
        "translation_units": nfiles,
        "functions_entered": len(funcs),
        "work_units": len(tasks),
        "counts": counts,
        "sites": {k: sorted(s)[:200] for k, s in sites.items()},
        "samples": samples,
        "obligations": sum(len(s) for s in sites.values()) or sum(counts.values()),
        "known_findings": sorted(k for k in viol if k in known),
        "new_violations": sorted(new),
        "notes": sorted(notes),
    }
    ev = {"property": a.pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(new), "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("wall %.1fs" % (time.time() - t0))
    if new:
        print("VIOLATION property=%s replay=%s" % (a.pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
