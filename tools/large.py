"""Large tables: workloads on hundreds of thousands of elements, judged by LargeTrace."""
import os
import mbv
from funcs import cmd

OPS = {  # weights per property: which operations the executions dwell on
    "C01": dict(ins=9, era=5, erl=1, fnd=6, dmp=3, clr=1),
    "C03": dict(ins=6, era=4, dmp=9, cpy=2, shr=2, rsv=1, erl=1),
    "C04": dict(ins=8, era=3, rsv=5, reh=5, shr=4, fnd=4, dmp=3),
    "C05": dict(ins=6, era=3, cpy=4, mov=2, casg=3, masg=2, swp=3, fnd=3, dmp=3),
    "C10": dict(ins=10, era=9, fnd=3, dmp=2, clr=1, erl=1),
    "C11": dict(ins=10, era=6, rsv=2, reh=1, shr=2, dmp=1),
    "C12": dict(ins=6, era=3, erl=8, fnd=3, dmp=3),
}


def trace(r, prop, name, top, length):
    w = OPS[prop]
    names, ws = list(w), list(w.values())
    c = r.choice((1, 5, 14, 24, 45, 55))
    ls = ["T %s %d %d %d" % (name, r.randrange(5), c, r.choice((3 * c, 3 * c + 1, 4 * c))), "new 0 %d" % r.choice((0, 0, r.randrange(top)))]
    alive = {0}

    def span(big):
        n = int(top * r.choice((0.02, 0.1, 0.3, 0.5, 1.0)) if big else r.choice((1, 60, 4000, top // 8)))
        a = r.randrange(max(1, top - n)) if r.random() < 0.7 else 0
        return a, min(top, a + max(1, n))
    a = int(top * (r.uniform(0.3, 1.0) if top < 1000000 else 1))
    ls.append("ins:%s 0 0 %d %d" % (r.choice("tir"), a, r.randrange(4)))
    for _ in range(length):
        o, n = r.choice(sorted(alive)), r.choices(names, ws)[0]
        a, b = span(n in ("ins", "era"))
        if n == "ins": ls.append("ins:%s %d %d %d %d" % (r.choice("eeittasr"), o, a, b, r.randrange(4)))
        elif n in ("era", "erl"): ls.append("%s %d %d %d %d" % (n, o, a, b, r.randrange(4) if n == "era" else 0))
        elif n == "fnd": ls.append("fnd %d %d %d" % (o, a, b + r.choice((0, 3000))))
        elif n in ("rsv", "reh"): ls.append("%s %d %d" % (n, o, r.choice((0, top // 2, top, 2 * top, top + r.randrange(top)))))
        elif n in ("dmp", "clr", "shr"): ls.append("%s %d" % (n, o))
        else:
            p = r.randrange(3)
            if n in ("cpy", "mov"):
                if p == o or (p in alive and len(alive) > 2): continue
                ls.append("%s %d %d" % (n, p, o)); alive.add(p)
            elif len(alive) > 1:
                q = r.choice(sorted(alive - {o})); ls.append("%s %d %d" % (n, o, q))
            if r.random() < 0.3: ls.append("fnd %d %d %d" % (o, a, b))
    for o in sorted(alive):
        ls += ["dmp %d" % o, "fnd %d 0 %d" % (o, top + 50)]
    return ls


def run(ctx):
    deep = ctx.tier != "quick"
    jobs = []
    for k, m in ((1, "g15"), (2, "g16"), (3, "rob")):
        for kv, hk in ((1, 1), (1, 0), (1, 2), (2, 1), (3, 1), (3, 2)) if deep else ((1, 1), (1, 2), (2, 1)):
            name = "large-%s-kv%d-h%d" % (m, kv, hk)
            r = ctx.rng(name)
            tops = [70000, 140000, 300000, 600000] * 3 + [2500000] if deep else [70000, 160000, 350000] + [1300000] * (hk == 1) if kv == 1 else [45000, 80000]
            jobs.append((name, cmd("big_main.cpp", "v3", "-DMAPK=%d" % k, "-DKV=%d" % kv, "-DHK=%d" % hk),
                         [trace(r, ctx.prop, "l%d" % j, int(t * r.uniform(0.8, 1.2)), 14 if t < 1000000 else 8 if deep else 5) for j, t in enumerate(tops)]))
    mbv.model(ctx, "MapRunsLaws")
    mbv.fcampaign(ctx, jobs, "LargeTrace", chunk=1)
