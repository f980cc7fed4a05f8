from .cover import *

TITLE = "zone verification checks every free and sealed chunk"
RULE = """Loop coverage by random interpretation: for randomly drawn zones and target chunks in the freed or sealed state, the scanning loops of the
verification entries must have a reachable iteration (initial value, constant step) that a heap with a damaged canary at the start or end of that chunk
refutes, and no state that leaves one of the loops before that iteration."""
CONFIGS_QUICK = ["default", "release", "tagging", "nomask"]
CONFIGS_THOROUGH = [c for c in ALL if c not in ("sanitize", "nocanary")]
MIN_COUNTS = {"chunk visited": 8}
ASSUMPTIONS = ["heap invariants of the drawn heaps", "loop variables advance by the constant step the dataflow found"]
TRIALS = {"quick": 60, "thorough": 400}
ENTRIES = {"iso_verify_zone": 0, "iso_verify_zones": None}


class R(Rule):
    traced = True


def units(m, tier):
    return [[e] for e in m.entries() if e in ENTRIES]


def analyse(m, unit, rep, tier, seed):
    for e in unit:
        if e not in m.funcs:
            continue
        I = Interp(m, R())
        I.run(e)
        rep.functions |= I.stats["functions"]
        rep.count("entries")
        cv = Cover(I)
        rep.count("loops", len({b.loop for b in cv.backs}))
        r = rng_for(seed, e)
        found = []
        for t in range(TRIALS[tier]):
            hs = r.getrandbits(60)
            rr = random.Random(hs)
            nz = rr.choice([1, 2, 3])
            zi = rr.randrange(nz)
            C = rr.choice([1024, 4096, 8192, 65536, 96, 32, 3072])
            state = rr.choice([2, 3])
            end = rr.choice([0, 1])
            tpos = rr.random()

            def mk(bad, hs=hs, nz=nz, zi=zi, C=C, state=state, end=end, tpos=tpos):
                h = Heap(m, random.Random(hs), nz=nz)
                z = h.zones[zi]
                d = z.B - z.pre * z.bsize if z.pre >= 0 else z.B
                h.sound = True
                z.C = C
                z.count = ZONE // C
                z.bsize = max(8, z.count * 2 // 8)
                z.maxidx = z.bsize >> 3
                z.slots = min(z.count, z.maxidx * 32)
                n = [0, 1, 31, 32, z.slots - 1, int(tpos * z.slots)][int(tpos * 6e5) % 6] % z.slots
                h.bitover = {(z.i, n): state}
                h.target = (z, n)
                if ENTRIES[e] is not None:
                    h.args[ENTRIES[e]] = z.addr ^ h.handle_mask
                if bad:
                    h.corrupt.add(h.chunk(z, n) + (z.C - 8 if end else 0))
                return h
            h = mk(False)
            z, n = h.target
            c = [0, 1, 2, z.i, n, 2 * n, 2 * n + 1, n >> 5, n & 31, 2 * (n & 31), 2 * (n & 31) + 1, n >> 6, n & 63, 2 * (n & 63), 2 * (n & 63) + 1,
                 n >> 2, n & 3, 2 * (n & 3), 2 * (n & 3) + 1, z.count, n * z.C, h.chunk(z, n), z.addr, z.B + 8 * (n >> 5), (n >> 5) * 64, (n >> 5) * 8]
            v = cv.visit(mk, c, None)
            found.append((v, mk, h, state, end))
        got = [f for f in found if f[0]]
        rep.count("chunk visited", len(got))
        if not got:
            # is there any check at all?  every chunk sealed and damaged: no iteration that looks at one may survive
            n = 0
            for t in range(200):
                h = Heap(m, random.Random(r.getrandbits(60)), nz=2)
                h.target = (h.zones[0], 0)
                h.bits = lambda z, n: 3
                if ENTRIES[e] is not None:
                    h.args[ENTRIES[e]] = h.zones[0].addr ^ h.handle_mask
                hb_over = None
                for b in cv.backs:
                    tr = Trial(h)
                    tr.propagate(b.s)
                    if not any(tr.ev(f) == 0 for f in b.facts):
                        class All(set):
                            def __contains__(self, x):
                                return True
                        h.corrupt = All()
                        tr = Trial(h)
                        if any(tr.ev(f) == 0 for f in b.facts):
                            n += 1
                        h.corrupt = set()
            if n == 0:
                rep.violation("nocheck:%s" % e, "%s has no loop that rejects a damaged canary" % e, e)
            else:
                rep.notes.add("%s: loop structure not recognised, %d rejecting iterations seen" % (e, n))
            continue
        for v, mk, h, state, end in found:
            z, n = h.target
            if v is None:
                rep.violation("skipped:%s" % e, "%s never checks the %s canary of %s chunk %d of %d in a zone of %d byte chunks" %
                              (e, "trailing" if end else "leading", "a sealed" if state == 3 else "a freed", n, z.count, z.C), e, "", describe(h))
                continue
            x = cv.early_exit(mk, v[0], v[1], r)
            rep.count("exits examined", len([x for x in cv.exits if x.loop in set(v[0].nest)]))
            if x:
                rep.violation("early:%s" % e, "%s can stop scanning before it reaches chunk %d (loop variable at %d)" % (e, n, x[2]),
                              x[0].loc, "", describe(h))
