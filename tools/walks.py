"""Model-driven executions: TLC enumerates the state graph of a structural specification (GroupTable,
RobinTable) for a scenario, walks are made that cover its transitions, and become scripts for the harness.
The replayed executions are judged by HashMapTrace like any other; whether the real table also had the
capacity the structural model predicts is only counted (`agreement'), since placement is not promised."""
import collections, json, os, random, re, tempfile

import mbv

EDGE = re.compile(r'<<"E", (-?\d+), "(\w+)", (-?\d+), (-?\d+), (-?\d+)>>')
INIT = re.compile(r'<<"I", (-?\d+), (-?\d+)>>')


# ------------------------------------------------------------------ scenarios
def group_scenario(r, kind, lim, opt={}):
    """Mobile keys among ballast that leaves a few free slots, at the real dimensions of the tables."""
    w = kind
    g = r.choice([2, 2, 4, 4, 8])
    cap = g * 15 - 1 if kind == 15 else g * 16
    mlf = 224 if r.random() < 0.7 else r.choice([128, 160, 200])
    mls = []
    if r.random() < opt.get("ml", 0.25):                        # the load limit goes up and down: near the lowest, so that it can come back
        g = r.choice([4, 4, 8]); cap = g * 15 - 1 if kind == 15 else g * 16
        mls = r.sample([128, 128, 160, 192, 224], 2)
        mlf = min(mls)
    thr = cap if cap <= 32 else cap * mlf // 256
    nk = r.choice([4, 5, 5, 6])
    free = r.choice([0, 1, 2, 3]) if r.random() < 0.8 else r.choice([5, 8])
    nb = max(0, min(thr, cap) - free - (nk // 2))
    hm = 64
    per = hm // g
    usable = [w] * g
    if kind == 15:
        usable[-1] -= 1
    # fill groups one after another along the probe sequence of group h0, leaving some partly empty
    h0 = r.randrange(g)
    order = [(h0 + j * (j + 1) // 2) % g for j in range(g)]
    homes, cls, fill = [], [], [0] * g
    style = r.choice(["seq", "even", "over"])
    ncls = r.choice([1, 2, 3, kind - (kind == 15) * 7])
    base = r.randrange(16)
    hole = r.choice([1, 2, 3]) if mls or r.random() < 0.2 else 0        # home group with room for some of the mobile keys only
    for j in range(nb):
        if hole:
            x = h0 if fill[h0] < usable[h0] - hole else min((i for i in range(g) if i != h0), key=lambda i: (fill[i] / usable[i], order.index(i)))
        elif style == "even":
            x = min(range(g), key=lambda i: (fill[i] / usable[i], order.index(i)))
        else:
            x = next(i for i in order if fill[i] < usable[i])
        fill[x] += 1
        home = x if style != "over" or r.random() < 0.75 else h0
        homes.append(home * per + r.randrange(per)); cls.append((base + r.randrange(ncls)) % 16)
    mh, mc = [], []
    same = r.random() < 0.5 or hole
    for j in range(nk):
        x = h0 if same or r.random() < 0.6 else r.choice(order[:3])
        mh.append(x * per + (r.randrange(per) if r.random() < 0.5 else 0)); mc.append((base + r.randrange(ncls + 1)) % 16)
    rsv0 = 0 if g == 2 or r.random() < 0.3 else thr
    caps = r.random() < opt.get("caps", 0.3)
    return dict(kind=kind, nk=nk, hm=hm, mlf=mlf, home=mh + homes, cls=[c % (8 if kind == 15 else 16) for c in mc + cls],
                rsv0=rsv0, rsv=[thr, thr + 1][:r.randint(0, 2)] if caps else [], reh=[r.choice([0, 16 * g, 16 * g + 1])] if caps else [],
                shr=int(caps and r.random() < 0.5), sro=int(r.random() < opt.get("sro", 0.2)), ml=mls, lim=lim, eqh=r.random() < 0.5)


def group_hash(s, k):
    """The hash that gives key k (1-based) the home and class of the scenario."""
    home, c = s["home"][k - 1], s["cls"][k - 1]
    if s["kind"] == 15:
        low = c + 8 * (3 + (0 if s["eqh"] else k % 28))         # control hash; its class is the low 3 bits
    else:
        low = c + 16 * (1 + (0 if s["eqh"] else k % 7))         # 7-bit control hash; its class is the low 4 bits
    return (home << 26, low)


def robin_scenario(r, lim, opt={}):
    cap = r.choice([4, 8, 8, 16])
    nk = r.choice([4, 5, 5, 6])
    mlf = r.choice([128, 128, 128, 150, 77])
    nb = r.choice([0, 0, 1, 2, 3]) + (r.choice([0, 2, 4]) if cap == 16 else 0)
    c, q = r.randrange(cap), opt.get("caps", 0.25)
    mk = lambda: (c + r.choice([0, 0, 0, 1, 2, cap - 1, r.randrange(cap)])) % cap + cap * r.choice([0, 0, 1, 3])
    return dict(kind=3, nk=nk, mlf=mlf, home=[mk() for _ in range(nk + nb)], cap0=r.choice([0, 0, cap]),
                rsv=[r.choice([3, 5, 9])] if r.random() < q else [], reh=[r.choice([0, 4, 9])] if r.random() < q else [], shr=int(r.random() < q), lim=lim)


# ------------------------------------------------------------------ the state graph
def graph(ctx, s, spec, workers=2):
    path = os.path.join(ctx.work, "scn_%d.json" % random.getrandbits(50))
    with open(path, "w") as f:
        f.write(json.dumps(s) + "\n")
    rc, out = mbv.tlc(["-config", spec + ".cfg", "-deadlock", spec + ".tla"], env=dict(SCN=path), workers=workers, heap="2g", timeout=600)
    os.unlink(path)
    if rc != 0 or "No error has been found" not in out:
        raise RuntimeError("model %s: rc=%s scenario %s\n%s" % (spec, rc, json.dumps(s), "\n".join(l for l in out.split("\n") if not l.startswith('<<"E"'))[-3000:]))
    g, d = mbv.tlc_stats(out)
    adj, size = collections.defaultdict(dict), {}
    for a, o, x, b, n in EDGE.findall(out):
        adj[a][(o, int(x))] = b; size[b] = int(n)
    m = INIT.search(out)
    init = m.group(1); size[init] = int(m.group(2))
    return init, adj, size, (g, d)


def walks(r, init, adj, maxlen, maxtotal):
    """Walks from the initial state that cover the transitions (all of them, or maxtotal steps' worth)."""
    todo = {a: set(e) for a, e in adj.items()}
    left = sum(map(len, todo.values())); total = left
    # distance tree from the initial state
    parent = {init: None}; q = collections.deque([init]); bfs = [init]
    while q:
        a = q.popleft()
        for e, b in adj.get(a, {}).items():
            if b not in parent:
                parent[b] = (a, e); q.append(b); bfs.append(b)

    def path_to(x):
        p = []
        while parent[x] is not None:
            x, e = parent[x]; p.append(e)
        return p[::-1]
    out, steps = [], 0
    pending = bfs[:]
    r.shuffle(pending)
    while left and steps < maxtotal and pending:
        while pending and not todo.get(pending[-1]):
            pending.pop()
        if not pending:
            break
        tgt = pending[-1]
        w = path_to(tgt); cur = tgt
        x = init
        for e in w:
            if e in todo.get(x, ()):
                todo[x].discard(e); left -= 1
            x = adj[x][e]
        while len(w) < maxlen:
            if todo.get(cur):
                e = r.choice(sorted(todo[cur])); todo[cur].discard(e); left -= 1
                w.append(e); cur = adj[cur][e]
                continue
            # nearest state with uncovered transitions
            seen = {cur: None}; q = collections.deque([cur]); hit = None
            while q and len(seen) < 400:
                a = q.popleft()
                for e, b in adj.get(a, {}).items():
                    if b not in seen:
                        seen[b] = (a, e)
                        if todo.get(b):
                            hit = b; q.clear(); break
                        q.append(b)
            if hit is None:
                break
            p, x = [], hit
            while seen[x] is not None:
                x, e = seen[x]; p.append(e)
            w += p[::-1]; cur = hit
        out.append(w); steps += len(w)
    return out, total, total - left


INS = ["rv", "tr", "cl", "eh", "epr", "ekv", "epw", "al"]


def script(r, s, w, hashes, tp, name, opt):
    """Script lines of a walk; also {line number: predicted capacity} is derived from it by the caller."""
    n, nk = len(s["home"]), s["nk"]
    allk, mob = "bfind %%d 1 %d" % (n + 1), "bfind 0 1 %d" % (nk + 1)
    L = ["T %s %s" % (tp, name), "hm 0"] + ["ht %d %d %d" % (k, hashes[k][0], hashes[k][1]) for k in range(1, n + 1)]
    if opt.get("fault"):
        L.append("fm %d" % r.choice([1, 1, 2, 3]))
    L.append("new 0 %d 0" % s.get("cap0", 0))
    L.append("mlf 0 %d" % (s["mlf"] * 1000 // 256 + 1))
    if s.get("rsv0"):
        L.append("rsv 0 %d" % s["rsv0"])
    if n > nk:
        L.append("bins:e 0 %d %d 1 0" % (nk + 1, n + 1))
    pred = []
    for j, (o, x) in enumerate(w):
        f = "x%d " % r.randint(1, 2) if r.random() < opt.get("fault", 0) else ""
        if o == "ins":
            q = f + "ins:%s 0 %d %d" % (r.choice(INS), x, 1000 + j)
        elif o == "era":
            f = ""
            q = ("erai 0 %d" if r.random() < opt.get("erai", 0.05) else "era 0 %d") % x
        elif o == "mlf":
            f = ""
            q = "mlf 0 %d" % (x * 1000 // 256 + 1)
        elif o in ("rsv", "reh"):
            q = f + "%s 0 %d" % (o, x)
        else:
            q = f + ("shr:t 0" if o == "sro" else "shr 0")
        L.append(q); pred.append(len(L) - 1)
        if f:                               # again, without the fault: the walk goes on as planned
            L.append(q[len(f):])
        L.append(mob)
        if r.random() < opt.get("dump", 0.03):
            L.append("dump 0")
        if r.random() < opt.get("copy", 0):
            L += [r.choice(["cpy 1 0", "cpya 1 0 0", "new 1 0 0\ncasg 1 0"]), allk % 1, "ins:rv 1 %d 7" % r.randint(1, nk), "era 1 %d" % r.randint(1, n), allk % 1, "dump 1", "del 1"]
        if r.random() < opt.get("move", 0):
            L += r.choice([["mov 2 0", "masg 0 2", "del 2"], ["new 2 0 0", "swp 0 2", "masg 0 2", "del 2"], ["mov 2 0", "swp 2 0", "del 2"]]) + [allk % 0]
    L += ["dump 0", allk % 0, "cpy 1 0", allk % 1, "dump 1"]
    flat, where = [], {}
    for k, q in enumerate(L):
        where[k] = len(flat); flat += q.split("\n")
    return flat, [where[k] for k in pred]


def make(ctx, rows, quick):
    """Rows (map, configuration, number of scenarios, options, tp) become (configuration, traces) jobs."""
    import concurrent.futures as cf
    lim, budget = (700, 2500) if quick else (12000, 60000)
    work = []
    for n, (m, c, cnt, opt, tp) in enumerate(rows):
        for j in range(cnt):
            r = ctx.rng("walk/%d/%d" % (n, j))
            work.append((c, m, r, robin_scenario(r, lim, opt) if m == "rob" else group_scenario(r, {"g15": 15, "g16": 16}[m], lim, opt), opt, tp))
    with cf.ThreadPoolExecutor(max(1, mbv.NCPU // 2)) as ex:
        graphs = list(ex.map(lambda x: graph(ctx, x[3], "RobinTable" if x[1] == "rob" else "GroupTable"), work))
    jobs, preds, st = [], {}, dict(scenarios=len(work), states=0, transitions=0, transitions_covered=0, walks=0, steps=0)
    for i, ((c, m, r, s, opt, tp), (init, adj, size, (g, d))) in enumerate(zip(work, graphs)):
        ws, total, cov = walks(r, init, adj, 120, budget)
        n = len(s["home"])
        H = {k: (r.choice([0, r.getrandbits(20)]), s["home"][k - 1]) if m == "rob" else group_hash(s, k) for k in range(1, n + 1)}
        traces = []
        for j, w in enumerate(ws):
            L, at = script(r, s, w, H, tp, "walk%d.%d" % (i, j), opt)
            traces.append(L)
            if not opt.get("fault"):
                x, p = init, []
                for e in w:
                    x = adj[x][e]; p.append(size[x])
                preds[id(L)] = (s["kind"], dict(zip(at, p)), L)
        jobs.append((c, traces))
        ctx.cov["states"] += d; ctx.cov["transitions"] += g
        for k, v in dict(states=d, transitions=total, transitions_covered=cov, walks=len(ws), steps=sum(map(len, ws))).items():
            st[k] += v
    ctx.parts.append(dict(kind="structural model (GroupTable, RobinTable): state graphs covered by replayed walks", **st))
    return jobs, preds


def agreement(ctx, preds, lines, meta):
    """How often the real table had the capacity which the structural model predicts (not a verdict)."""
    same = diff = 0
    for line, (c, t) in zip(lines, meta):
        if id(t) not in preds:
            continue
        kind, at, _ = preds[id(t)]
        ev = json.loads(line)
        n = 0
        for k, q in enumerate(t):
            if q.split()[0] in ("hm", "ht", "fm"):
                continue
            if k in at and n < len(ev):
                e, g = ev[n], at[k]
                if e.get("o") == 0 and "bc" in e:
                    want = g if kind == 3 else 0 if g == 0 else g * 15 - 1 if kind == 15 else g * 16
                    if e["bc"] == want:
                        same += 1
                    else:
                        diff += 1
            n += 1
    ctx.parts.append(dict(kind="capacity predicted by the structural model", agreements=same, differences=diff))
