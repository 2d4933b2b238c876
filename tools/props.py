"""Which executions decide which property: configurations, workload profiles and amounts per tier."""
from gen import Prof, Gen, hash_mode, LV, RV, LVX, RVX, LVA, RVA, LVAX, RVAX
from mbv import cfg

G = ("g15", "g16")
ALL = ("g15", "g16", "rob")


# ---------------------------------------------------------------- workload profiles
def prof(kind, r, m="g15"):
    rob = m == "rob"
    if kind == "small":
        return Prof(nkeys=r.choice([4, 8, 14, 24]), length=r.choice([40, 70]), nobj=3)
    if kind == "medium":
        return Prof(nkeys=r.choice([40, 70]), length=r.choice([90, 140]), nobj=r.choice([1, 2, 3]), dump_every=9, growth=0.3, rsvmax=200)
    if kind == "large":
        return Prof(nkeys=r.choice([200, 700]), length=50, nobj=2, bulk=r.choice([120, 300]), dump_every=14, rsvmax=1200,
                    w=dict(bins=6, bera=4, bfind=2, erif=2, erall=1, insr=0, dump=1))
    if kind == "huge":
        return Prof(nkeys=r.choice([2000, 4000]), length=22, nobj=2, bulk=r.choice([1500, 3000]), dump_every=11, rsvmax=5000,
                    w=dict(bins=9, bera=6, bfind=3, erif=2, erall=0, erar=0, cdump=0))
    if kind == "boundary":          # around the capacities at which tables grow
        return Prof(nkeys=r.choice([34, 60, 64, 110]), length=110, nobj=1, growth=0.7, dump_every=12, caps=[0, 0, -1, 1, 4, 5, 14, 15, 28, 29, 30, 31, 32, 33, 58, 59, 60, 64],
                    w=dict(ins=40, era=10, rsv=1, reh=1, shr=1, clr=0, erif=1, bins=2, obs=1))
    if kind == "churn":             # constant size, endless insert/erase
        n = r.choice([6, 14, 27, 29, 30, 50, 56])
        return Prof(length=r.choice([250, 500]), nkeys=n + r.choice([2, 6, 30, 100]), nobj=1, dump_every=60, growth=0.5, rsvmax=60,
                    only=dict(ins=46, era=46, find=6, erai=2, obs=1))
    if kind == "chain":             # collision chains through (almost) all groups of a table (group maps only)
        n = r.choice([50, 105, 208, 222, 417, 446, 838])
        return Prof(length=r.choice([14, 26]), nkeys=n + 8, nobj=1, bulk=n, growth=0.6, dump_every=0, rsvmax=n,
                    chain=n, only=dict(ins=10, era=10, bins=2, bera=2, bfind=3, find=6, erai=2, reh=1))
    if kind == "full":              # tables filled to (just below, just above) their limit, then copied, moved, erased, refilled
        n = r.choice([3, 13, 14, 28, 29, 30, 50, 51, 52, 103, 104, 105, 111, 112, 208, 209] if m != "rob" else [2, 4, 7, 8, 15, 16, 17, 32, 33, 64, 65, 128])
        return Prof(length=24, nkeys=n + 6, nobj=3, chain=n, stride=r.choice([1, 1, 3, 5, 7, 8, 8, 11, 11]), growth=0.7, dump_every=8, rsvmax=2 * n, bulk=n,
                    only=dict(ins=8, era=6, erai=2, cpy=6, cpya=3, casg=5, mov=2, mova=2, masg=2, swp=2, bfind=3, cdump=2, erif=1, rsv=1, shr=2, reh=1, bins=2, obs=1, **{"del": 8, "new": 2}))
    if kind == "stair":             # robin: neighbouring homes filled one after the other, so that elements are displaced again and again
        c = r.choice([16, 64, 256, 512, 1024, 1024, 2048])
        look = max(2 * (c.bit_length() - 1), 4)
        run = r.choice([look - 1, look - 1, look, look // 2, 2])
        n = max(1, min(c // 2 // run, r.choice([4, 9, 14, 99, 99]), 30 if run > 2 else 60))
        base = r.choice([0, 1, c // 2, c - n, c - n, r.randrange(c)])
        homes = [(base + h) % c for h in range(n)]
        o = r.choice(["down", "down", "down", "up", "any"])
        homes = homes[::-1] if o == "down" else homes
        if o == "any":
            r.shuffle(homes)
        return Prof(length=24, nobj=2, stair=(c, run, homes), growth=0.3, dump_every=8, rsvmax=2 * c, bulk=20,
                    only=dict(ins=12, era=12, erai=4, find=4, idx=2, bfind=1, cpy=1, swp=4, mova=1, masg=1, new=2, reh=1, shr=1, erif=1, **{"del": 1}))
    if kind == "insert":
        return Prof(nkeys=r.choice([6, 16, 34, 60]), length=80, nobj=r.choice([1, 2, 3]), dump_every=8, growth=r.choice([0.0, 0.4]),
                    only=dict(ins=50, assign=25, idx=14, insr=5, insil=5, era=9, erai=1, clr=1, newr=2, newil=2, newrc=2, newm=1, insm=2, find=3, **{"del": 3, "new": 1}))
    if kind == "iter":
        return Prof(nkeys=r.choice([5, 16, 31, 60, 130]), length=60, nobj=2, dump_every=2, rsvmax=800, bulk=100,
                    w=dict(cdump=14, iter=14, erall=3, erar=3, rsv=5, shr=4, reh=4, bins=3, bera=3, set=1, at=1, has=1, obs=0, ins=14, erif=2))
    if kind == "capacity":
        return Prof(nkeys=r.choice([20, 60, 130]), length=70, nobj=2, dump_every=4, rsvmax=r.choice([40, 130, 700]), bulk=100, growth=0.4,
                    only=dict(ins=25, idx=4, era=10, hug=3, rsv=12, reh=12, shr=8, mlf=5, obs=6, bins=6, bera=4, erif=1, clr=2, insr=2, newr=1, cpy=1, mov=1, **{"del": 2, "new": 2}))
    if kind == "limit":             # the load limit changes while overflow marks and tombstones have eaten part of the threshold
        return Prof(nkeys=r.choice([50, 70, 130]), length=60, nobj=2, dump_every=12, rsvmax=200, bulk=90, growth=0.2,
                    only=dict(ins=16, era=12, bins=18, bera=14, mlf=10, obs=3, erif=2, cpy=1, mova=1, swp=1, reh=1, rsv=1, **{"new": 1}))
    if kind == "value":             # copy, move, swap, assignment
        return Prof(nkeys=r.choice([5, 18, 40, 90]), length=80, nobj=4, dump_every=6, tag=r.choice([0, 1, 7]), bulk=60,
                    w=dict(ins=20, era=6, cpy=8, cpya=6, mov=8, mova=6, casg=9, masg=9, swp=9, ilasg=3, new=4, newr=2, newil=2, newrc=3, newm=1, insm=1, clr=2, rsv=2, reh=1, shr=2, mlf=2, obs=5, bins=3, **{"del": 10}))
    if kind == "throw":
        return Prof(nkeys=r.choice([6, 14, 31, 50]), length=70, nobj=3, dump_every=3, inject=r.choice([0.25, 0.5]), inject_max=r.choice([2, 6, 40]),
                    fm=r.choice([1, 1, 2, 3, 3, 3]), bulk=40, growth=r.choice([0, 0.5]),
                    w=dict(insr=6, insil=3, newr=5, newil=3, newrc=4, newm=3, insm=3, cpy=6, cpya=4, casg=6, mova=3, masg=3, rsv=6, reh=6, shr=5, ins=34, assign=14, idx=12, era=8, new=5, **{"del": 7}))
    if kind == "throwfn":           # hasher / equality throw: only lookups and insertions without growth
        return Prof(nkeys=14, length=60, nobj=1, dump_every=3, inject=0.3, inject_max=4, fm=12, caps=[64], rsvmax=20,
                    only=dict(ins=40, assign=15, idx=12, era=20, erai=2, find=4))
    if kind == "addr":              # address stability
        return Prof(nkeys=r.choice([14, 40, 90]), length=80, nobj=3, dump_every=1, growth=0.2, rsvmax=160, bulk=30,
                    w=dict(rsv=5, swp=4, mov=4, masg=4, cpy=1, casg=1, era=16, erai=6, erif=3, erar=3, erall=2, reh=2, shr=1, bins=1, clr=1, obs=0))
    if kind == "erase":
        return Prof(nkeys=r.choice([6, 16, 31, 60, 130]), length=70, nobj=2, dump_every=4, bulk=80, growth=0.3,
                    only=dict(ins=22, bins=6, era=8, erai=18, erar=12, erif=9, erall=9, eraks=6, bera=2, clr=1, cdump=2, rsv=1, reh=1, cpy=1, mov=1, new=1, **{"del": 1}))
    raise ValueError(kind)


def nested(r, tp, name):
    """Homes that coincide in small tables and differ in large ones: a rebuild of a robin table has to start
    again with a larger one while elements are being moved, and an allocation fails in the middle of that."""
    n = r.choice([6, 9, 13, 20, 26])
    step, base = r.choice([16, 64, 256, 1024]), r.choice([0, 0, 3, 15, 60, 1023])
    L = ["T %s %s" % (tp, name), "hm 0"]
    for k in range(1, n + 1):
        L.append("ht %d %d %d" % (k, r.getrandbits(r.choice([0, 20])), base + step * k if r.random() < 0.8 else r.randrange(4096)))
    L += ["fm %d" % r.choice([1, 1, 1, 3]), "new 0 %d 0" % r.choice([0, 0, 60]), "new 1 0 0"]
    for j in range(r.choice([14, 26])):
        o, x = r.choice([0, 0, 0, 1]), r.random()
        f = "x%d " % r.choice([1, 2, 3, 3, 4, 5, 5, 6, 7, 9, 12]) if r.random() < 0.75 else ""
        c = r.choice([0, 1, 2 * n, 3 * n, 64, 100, 300, 1100])
        if x < 0.25:
            L.append("bins:e %d %d %d 1 %d" % (o, r.randint(1, n), n + 1, 100 * j))
        elif x < 0.4:
            a = r.randint(1, n); L.append("bera %d %d %d %d" % (o, a, r.randint(a, n) + 1, r.choice([1, 2, 3])))
        elif x < 0.6:
            L.append("%sshr%s %d" % (f, r.choice(["", "", ":t"]), o))
        elif x < 0.68:
            L.append("%srsv%s %d %d" % (f, r.choice(["", ":t"]), o, c))
        elif x < 0.76:
            L.append("%sreh%s %d %d" % (f, r.choice(["", ":t"]), o, c))
        elif x < 0.95:
            L.append("%sins:%s %d %d %d" % (f, r.choice(["rv", "cl", "eh", "tr"]), o, r.randint(1, n), 1000 + j))
        else:
            L += ["cpy 2 0", r.choice(["swp 1 2", "masg 1 2"]), "del 2"]
        if f:
            L += ["dump %d" % o, "bfind %d 1 %d" % (o, n + 1)]
    return L + ["dump 0", "dump 1"]


def squeeze(r, tp, name):
    """Robin tables in which an insertion finds a place within reach, but would push another element out of reach:
    every insertion form, and the constructors that move elements into a smaller table, meets this corner."""
    L = ["T %s %s" % (tp, name), "hm 0"]
    c = r.choice([32, 64, 64, 128, 256, 1024])
    look = max(2 * (c.bit_length() - 1), 4)
    h = r.choice([1, 1, c // 2, c - 1, c - 2, r.randrange(1, c)])
    a = r.choice([1, 1, 2, 3])                  # elements in front of the full run
    run = look + 1 - a                          # the last one is as far away as it may be when a - 1 precede it
    homes = [h] * run + [h - 1] * a
    if a > 1:                                   # shifted by those in front: fill the run last
        homes = [h - 1] * a + [h] * run
    n = len(homes)
    homes.append(h - 1)
    big = r.random() < 0.25
    d = r.choice([32, 64])                      # capacity of a table made for the elements below
    dl = max(2 * (d.bit_length() - 1), 4)
    for k in range(1, n + 2):
        L.append("ht %d %d %d" % (k, r.getrandbits(r.choice([0, 20])), homes[k - 1]))
    if big:                                     # seen in the order of homes: the run first, what has to go in front of it later
        for k in range(1, dl + 1):
            L.append("ht %d %d %d" % (100 + k, r.getrandbits(20), 9))
        for k in range(dl + 1, dl + 3):
            L.append("ht %d %d %d" % (100 + k, r.getrandbits(20), 8 + 1024))
        nb = dl + 2 + (0 if d == 32 else 8)
        for k in range(dl + 3, nb + 1):
            L.append("ht %d %d %d" % (100 + k, r.getrandbits(20), 20 + k))
        L += ["new 0 2048 0 1", "bins:e 0 101 %d 1 5" % (101 + nb), "dump 0"]
        for x in r.sample(["mova 1 0 2", "cpya 1 0 2", "cpy 1 0", "newm 1 0", "newm:c 1 0", "new 1 0 0 2\ninsm 1 0", "new 1 0 0 2\ncasg 1 0", "new 1 0 0 2\nmasg 1 0"], 4):
            L += x.split("\n") + ["dump 1", "bfind 1 101 %d" % (102 + nb), "shr 1", "bfind 1 101 %d" % (102 + nb), "dump 1", "del 1", "dump 0", "del 0", "new 0 2048 0 1", "bins:e 0 101 %d 1 5" % (101 + nb)]
        return L
    forms = ["ins:%s 0 %%d %%d" % f for f in LV + RV + LVX + RVX + LVA + RVA + LVAX + RVAX] + \
            ["idx 0 %d\nset 0 %d %d", "idx:r 0 %d\nset 0 %d %d", "idxs 0 %d %d", "idxs:r 0 %d %d"] * 2 + ["insr%s 0 %%d %%d" % x for x in ("", ":l", ":i", ":m", ":v")] + ["insil 0 %d %d 1 7 2 8"] * 2
    for f in r.sample(forms, 9):
        L += ["new 0 %d 0" % (c // 2), "bins:e 0 1 %d 1 40" % (n + 1)]
        if r.random() < 0.2:
            L += ["cpy 1 0", "swp 0 1", "del 1"]
        k, v = n + 1, r.randrange(1000)
        L += (f % ((k, k, v) if f.count("%d") == 3 else (k, v))).split("\n")
        L += ["bfind 0 1 %d" % (n + 2), "dump 0", "del 0"]
    return L


def traces(rng, kind, m, n, tp="", hk=0, deep=1):
    out = []
    for j in range(n):
        if kind == "squeeze":
            out.append(squeeze(rng, tp, "squeeze%d" % j))
            continue
        if kind == "nested":
            out.append(nested(rng, tp, "nested%d" % j))
            continue
        p = prof(kind, rng, m)
        p.length = int(p.length * deep)
        if hk in (1, 2):
            p.hm = (0,) if p.stair else hash_mode(rng, "r" if m == "rob" else "g") if not p.chain else \
                (0,) if kind == "full" else (2, rng.choice([1, 1, 1, 2]), rng.choice([60, 61, 62]), rng.choice([1, 1, 2, 9]), rng.choice([1, 256]), rng.choice([0, 1, 250]))
            if p.stair:
                pass
            elif m == "rob" and not (p.hm[0] in (0, 5)):      # robin: at most ~30 keys of one home (design limit)
                p.nkeys = min(p.nkeys, 24); p.bulk = min(p.bulk, 24); p.rsvmax = min(p.rsvmax, 200)
            elif p.chain:
                pass
            elif p.hm[0] == 1 and m != "rob":
                p.nkeys = min(p.nkeys, 70); p.bulk = min(p.bulk, 60)
            elif p.hm[0] != 5 and m != "rob":
                p.bulk = min(p.bulk, 300); p.nkeys = min(p.nkeys, 700)
            if p.tag == 0 and rng.random() < 0.2:
                p.tag = 3
        elif m == "rob":
            p.hm = None
        out.append(Gen(rng, p, tp, "%s%d" % (kind, j)).run())
    return out


# ---------------------------------------------------------------- configurations per property
# A row: (map names, kv kinds, hasher kind, allocator kind, layouts, asan, arch, {workload: traces}, tp)
def T(maps, kvs, hk, ak, lays, asan, arch, work, tp=""):
    rows = []
    for m in maps:
        for kv in kvs:
            for lay in (lays if m == "rob" else (0,)):
                rows.append((cfg(m, kv, hk, ak, lay, asan, arch), work, tp, m, hk))
    return rows


L0 = (0,)
LA = (0, 1, 2, 3, 4)

QUICK = {
    "C01": T(ALL, ("ii", "ss"), 0, 0, L0, 0, "v3", dict(small=14, medium=10, boundary=6, large=4, churn=3, huge=1, full=8))
         + T(ALL, ("kk",), 1, 1, L0, 0, "v3", dict(small=10, medium=8, boundary=5, churn=2, large=2))
         + T(("rob",), ("ii",), 0, 0, (1, 2, 4), 0, "v3", dict(small=8, medium=8, boundary=4, large=3))
         + T(G, ("it",), 2, 0, L0, 0, "v2", dict(small=8, medium=6, large=2))
         + T(("rob",), ("kk",), 1, 1, (0, 2), 0, "v3", dict(stair=4, squeeze=8))
         + T(ALL, ("ll",), 3, 0, L0, 0, "v3", dict(small=8, medium=6, large=1)),
    "C02": T(ALL, ("ss", "km", "is"), 0, 0, L0, 0, "v3", dict(insert=22, boundary=3))
         + T(ALL, ("kk",), 1, 1, L0, 0, "v3", dict(insert=20, boundary=3))
         + T(ALL, ("tt",), 0, 1, L0, 0, "v3", dict(insert=14))
         + T(("rob",), ("tt",), 0, 1, (1, 2), 0, "v3", dict(insert=16, boundary=2))
         + T(("rob",), ("kk",), 1, 1, (0, 2), 0, "v3", dict(squeeze=30))
         + T(ALL, ("eu",), 0, 0, L0, 0, "v3", dict(insert=14))
         + T(("rob",), ("vb",), 0, 0, L0, 0, "v3", dict(insert=10)),
    "C03": T(ALL, ("ii", "kk"), 0, 0, L0, 0, "v3", dict(iter=22, large=3, full=8))
         + T(ALL, ("is",), 1, 0, L0, 0, "v3", dict(iter=14))
         + T(("rob",), ("ss",), 0, 0, (1, 2, 4), 0, "v3", dict(iter=12)),
    "C04": T(ALL, ("ii", "ss"), 0, 1, L0, 0, "v3", dict(capacity=22, boundary=6, huge=1, large=2, full=8))
         + T(ALL, ("kk",), 1, 1, L0, 0, "v3", dict(capacity=20, boundary=6, limit=6))
         + T(("rob",), ("tt",), 0, 1, (1, 2, 4), 0, "v3", dict(capacity=16, boundary=3))
         + T(("rob",), ("ii",), 1, 1, (0, 2), 0, "v3", dict(stair=4))
         + T(ALL, ("ll",), 4, 1, L0, 0, "v3", dict(capacity=8, boundary=2)),
    "C05": T(ALL, ("kk",), 1, 2, L0, 0, "v3", dict(value=22, full=12))
         + T(ALL, ("kk",), 1, 3, L0, 0, "v3", dict(value=22, full=12))
         + T(ALL, ("ii",), 0, 0, L0, 0, "v3", dict(full=60, value=8))
         + T(ALL, ("ss",), 1, 0, L0, 0, "v3", dict(value=22, full=12))
         + T(("rob",), ("tt",), 1, 2, (1, 2, 4), 0, "v3", dict(value=14, full=6))
         + T(("rob",), ("kk",), 1, 2, (0, 2), 0, "v3", dict(squeeze=16))
         + T(ALL, ("pa",), 0, 2, L0, 0, "v3", dict(value=10, full=4)),
    "C06": T(ALL, ("pa",), 0, 1, L0, 0, "v3", dict(small=6, value=4, capacity=4))
         + T(ALL, ("kk", "tt", "km"), 0, 1, L0, 0, "v3", dict(small=14, boundary=5, value=8, erase=8, insert=8, capacity=6))
         + T(("rob",), ("tt",), 0, 1, (1, 2, 4), 0, "v3", dict(small=8, boundary=4, value=6, erase=6, insert=6))
         + T(ALL, ("ss",), 0, 0, L0, 1, "v3", dict(small=6, value=5, erase=5, insert=4, capacity=4)),
    "C07": T(ALL, ("kk",), 0, 2, L0, 0, "v3", dict(value=20, capacity=12, small=10))
         + T(ALL, ("kk",), 0, 3, L0, 0, "v3", dict(value=20, capacity=6))
         + T(("rob",), ("tt",), 0, 2, (1, 2), 0, "v3", dict(value=16, capacity=8))
         + T(ALL, ("ii",), 0, 1, L0, 0, "v3", dict(capacity=14, small=8, throw=8))
         + T(ALL, ("ib",), 0, 1, L0, 1, "v3", dict(capacity=5, value=4)),
    "C08": T(ALL, ("kk", "tt"), 0, 1, L0, 0, "v3", dict(throw=34))
         + T(ALL, ("kk",), 1, 2, L0, 0, "v3", dict(throw=18, throwfn=14))
         + T(("rob",), ("tt",), 0, 1, (1, 2, 4), 0, "v3", dict(throw=20))
         + T(("rob",), ("kk",), 1, 1, (1, 2), 0, "v3", dict(throw=24))
         + T(("rob",), ("kk",), 1, 1, (0, 1, 2), 0, "v3", dict(nested=24))
         + T(("rob",), ("ss",), 1, 1, (3, 4), 0, "v3", dict(nested=24)),
    "C09": T(G, ("ii", "ss", "kk"), 0, 1, L0, 0, "v3", dict(addr=28))
         + T(G, ("is",), 1, 1, L0, 0, "v3", dict(addr=20, churn=3))
         + T(G, ("ss",), 1, 2, L0, 0, "v3", dict(addr=18, value=8))
         + T(G, ("kk",), 0, 3, L0, 0, "v3", dict(addr=14, value=6)),
    "C10": T(ALL, ("ii", "kk"), 1, 1, L0, 0, "v3", dict(churn=8, limit=8, small=14, medium=8, boundary=6, large=2), tp="C10")
         + T(G, ("ii",), 2, 0, L0, 0, "v3", dict(churn=6, small=8, medium=6, boundary=4), tp="C10")
         + T(("rob",), ("ii",), 1, 0, (1, 2, 4), 0, "v3", dict(churn=5, small=8, medium=5, boundary=4), tp="C10")
         + T(G, ("ii",), 1, 1, L0, 0, "v3", dict(chain=14), tp="C10")
         + T(("rob",), ("ii", "kk"), 1, 1, (0, 1, 2), 0, "v3", dict(stair=12, squeeze=14), tp="C10")
         + T(G, ("is",), 2, 0, L0, 0, "v3", dict(chain=4), tp="C10")
         + T(ALL, ("zz",), 0, 0, L0, 0, "v3", dict(churn=8), tp="C10")
         + T(ALL, ("ii",), 1, 1, L0, 1, "v3", dict(churn=2, small=4, boundary=2), tp="C10"),
    "C11": T(ALL, ("ii", "ss"), 0, 1, L0, 0, "v3", dict(capacity=26, boundary=8, large=2, churn=3, value=6))
         + T(ALL, ("ii",), 1, 1, L0, 0, "v3", dict(limit=30, capacity=8))
         + T(("rob",), ("ii",), 0, 0, (1, 2), 0, "v3", dict(capacity=16, boundary=4))
         + T(ALL, ("kk",), 1, 1, L0, 0, "v3", dict(capacity=16, boundary=5, churn=3)),
    "C12": T(ALL, ("ii", "kk"), 0, 0, L0, 0, "v3", dict(erase=26, large=2))
         + T(ALL, ("ss",), 1, 0, L0, 0, "v3", dict(erase=20))
         + T(("rob",), ("tt",), 0, 1, (1, 2, 4), 0, "v3", dict(erase=14)),
    "C13": T(ALL, ("ss", "kk", "tt"), 0, 0, L0, 0, "v3", dict(insert=24, throw=6))
         + T(ALL, ("km",), 1, 0, L0, 0, "v3", dict(insert=20))
         + T(("rob",), ("km",), 1, 0, L0, 0, "v3", dict(squeeze=16))
         + T(("rob",), ("ss",), 0, 0, (1, 2), 0, "v3", dict(insert=16)),
    "C14": T(ALL, ("kk", "ss"), 1, 0, L0, 0, "v3", dict(value=26))
         + T(ALL, ("ii",), 1, 3, L0, 0, "v3", dict(value=20))
         + T(G, ("ii",), 2, 2, L0, 0, "v3", dict(value=20))
         + T(("rob",), ("tt",), 1, 2, (1, 2), 0, "v3", dict(value=16)),
}

# walks through the state graphs of the structural models: (maps, key/value kinds, hasher, allocator, layouts, scenarios, options)
def W(maps, kvs, hk, ak, lays, n, tp="", **opt):
    return [(m, cfg(m, kv, hk, ak, lay, 0, "v3"), n, opt, tp) for m in maps for kv in kvs for lay in (lays if m == "rob" else (0,))]


WALKS = {
    "C01": W(ALL, ("kk",), 1, 1, L0, 3),
    "C03": W(ALL, ("ii",), 1, 0, L0, 2, dump=0.25),
    "C04": W(ALL, ("kk",), 1, 1, L0, 3, caps=1.0, sro=0.5),
    "C05": W(ALL, ("ii",), 1, 0, L0, 2, copy=0.12, move=0.08) + W(ALL, ("ss",), 1, 0, L0, 1, copy=0.1, move=0.08),
    "C06": W(ALL, ("kk",), 0 + 1, 1, L0, 2, copy=0.03, move=0.03),
    "C08": W(ALL, ("kk",), 1, 2, L0, 2, fault=0.3, caps=0.6),
    "C09": W(G, ("ii", "kk"), 1, 1, L0, 2, dump=0.15, caps=0.5),
    "C10": W(ALL, ("ii",), 1, 1, L0, 4, tp="C10") + W(("rob",), ("ii",), 1, 0, (1, 2, 4), 1, tp="C10"),
    "C11": W(ALL, ("ii",), 1, 1, L0, 3, caps=0.2, ml=0.6, sro=0.4),
    "C12": W(ALL, ("kk",), 1, 1, L0, 2, erai=0.6) + W(ALL, ("ii",), 1, 0, L0, 1, erai=0.6),
}

# the deep tier: more seeds, every layout, ASan and the other instruction-set levels
def thorough(prop):
    rows = [(c, {k: v * 6 for k, v in w.items()}, tp, m, hk) for c, w, tp, m, hk in QUICK[prop]]
    seen = set(c for c, *_ in rows)
    for c, w, tp, m, hk in QUICK[prop]:
        for arch in ("v2", "v1") if m != "rob" else ():      # robin_hash_map requires AVX2
            d = c[:6] + (arch,)
            if d not in seen:
                seen.add(d); rows.append((d, {k: v for k, v in w.items()}, tp, m, hk))
        d = c[:5] + (1, c[6])
        if d not in seen:
            seen.add(d); rows.append((d, {k: max(1, v // 2) for k, v in w.items()}, tp, m, hk))
        d = c[:5] + (2, c[6])                  # with the library's own assertions
        if d not in seen:
            seen.add(d); rows.append((d, {k: max(1, v // 2) for k, v in w.items()}, tp, m, hk))
        if m == "rob":
            for lay in LA:
                d = c[:4] + (lay,) + c[5:]
                if d not in seen:
                    seen.add(d); rows.append((d, w, tp, m, hk))
    return rows


def jobs(ctx):
    rows = QUICK[ctx.prop] if ctx.tier == "quick" else thorough(ctx.prop)
    out = []
    for n, (c, work, tp, m, hk) in enumerate(rows):
        rng = ctx.rng("row%d" % n)
        tr = []
        for kind, cnt in work.items():
            tr += traces(rng, kind, m, cnt, tp, hk)
        out.append((c, tr))
    return out
