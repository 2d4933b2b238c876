"""Runner library: build the harness from /repo's working tree, execute generated scripts on the real
code, have TLC judge the recorded traces against the TLA+ specification, report, write evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MBV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
NCPU = os.cpu_count() or 4
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

MAPS = {"g15": 1, "g16": 2, "rob": 3}
KVS = {"ii": 1, "zz": 2, "ss": 3, "tt": 4, "ib": 5, "tm": 6, "si": 7, "it": 8, "ti": 9, "is": 10, "kk": 11, "km": 12, "ll": 13, "pa": 14, "vb": 15, "eu": 16}
ARCH = {"v3": "-march=x86-64-v3", "v2": "-march=x86-64-v2", "v1": "-march=x86-64"}


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="mbv_%s_" % prop)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, samples=[])
        self.parts = []
        self.violations = []
        self.notes = []

    def rng(self, salt):
        return random.Random("%d/%s/%s" % (self.seed, self.prop, salt))

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def done(self):
        shutil.rmtree(self.work, ignore_errors=True)


# ------------------------------------------------------------------ configurations
def cfg(m, kv, hk=0, ak=0, lay=0, asan=0, arch="v3"):
    return (m, kv, hk, ak, lay, asan, arch)


def cname(c):
    m, kv, hk, ak, lay, asan, arch = c
    return "%s-%s-h%d-a%d-l%d%s-%s" % (m, kv, hk, ak, lay, ("", "-asan", "-debug")[asan], arch)


def compile_cmd(c, out):
    m, kv, hk, ak, lay, asan, arch = c
    cmd = ["g++", "-std=c++17", "-O1", "-w", ARCH[arch], "-I" + os.path.join(REPO, "src"), "-I" + HARN,
           "-DMAPK=%d" % MAPS[m], "-DKVK=%d" % KVS[kv], "-DHK=%d" % hk, "-DAK=%d" % ak, "-DLAY=%d" % lay]
    if asan != 2:
        cmd += ["-DNDEBUG"]                 # 2: the library's own assertions are on
    if asan == 1:
        cmd += ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
    return cmd + [os.path.join(HARN, "mt_main.cpp"), "-o", out]


def build_one(cmd, out):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (p.returncode == 0 and os.path.exists(out)), p.stdout


def build(ctx, configs):
    """Compile every configuration (in parallel).  Returns {config: binary}; failures are violations."""
    configs = sorted(set(configs))
    bins = {}

    def one(c):
        out = os.path.join(ctx.work, "h_" + cname(c))
        return c, out, build_one(compile_cmd(c, out), out)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for c, out, (ok, log) in ex.map(one, configs):
            if ok:
                bins[c] = out
            else:
                rp = save_replay(ctx, "build-" + cname(c), dict(kind="build", config=cname(c), log=log[-6000:]))
                ctx.violations.append(dict(what="configuration %s does not compile" % cname(c), replay=rp))
    return bins


def exec_script(binary, lines, work, tag, timeout=600):
    sp = os.path.join(work, tag + ".s"); jp = os.path.join(work, tag + ".j")
    with open(sp, "w") as f:
        f.write("\n".join(lines) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:handle_segv=0:handle_abort=0:abort_on_error=0:malloc_context_size=4")
    try:
        p = subprocess.run([binary, sp, jp], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = -99
    out = []
    if os.path.exists(jp):
        with open(jp, errors="replace") as f:
            out = [x for x in f.read().split("\n") if x]
        os.unlink(jp)
    os.unlink(sp)
    return rc, out


def run_traces(binary, traces, work, tag, max_restarts=4):
    """Execute traces (lists of script lines) in one process, restarting behind a trace that crashes."""
    res = [None] * len(traces)
    pos = 0; restarts = 0
    while pos < len(traces):
        rc, out = exec_script(binary, [l for t in traces[pos:] for l in t], work, tag)
        n = 0
        for line in out:
            try:
                json.loads(line)
            except ValueError:
                break
            if pos + n < len(traces):
                res[pos + n] = line
            n += 1
        if rc == 0:
            break
        if n == 0:
            res[pos] = json.dumps([dict(op="cfg", name="?", trace="?", kind=0, stable=0, prop=0, sa=0, tp=""), dict(op="crash", sig=rc, at="none", o=-1)])
            n = 1
        restarts += 1
        pos += n
        if restarts > max_restarts:
            break
    return res


# ------------------------------------------------------------------ TLC
def tlc(args, env=None, timeout=900, workers=4, heap="4g", cwd=SPEC, metadir=None):
    md = metadir or tempfile.mkdtemp(prefix="tlcmeta_")
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % min(4, NCPU), "-cp", CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md] + args
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout.decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")); rc = -99
    if metadir is None:
        shutil.rmtree(md, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


FAILRE = re.compile(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)
TAGRE = re.compile(r'<<\s*"([A-Z]\d*)",\s*"([^"]*)"\s*>>')


def judge_shard(ctx, lines, idx, spec, workers, heap, depth=0):
    path = os.path.join(ctx.work, "tr_%s_%d.ndjson" % (spec, random.getrandbits(60)))
    with open(path, "w") as f:
        f.write("\n".join(lines[i] for i in idx) + "\n")
    rc, out = tlc(["-config", spec + ".cfg", "-deadlock", spec + ".tla"], env=dict(TRACES=path, FOCUS="ALL"), workers=workers, heap=heap)
    os.unlink(path)
    if rc != 0 or "Model checking completed. No error" not in out or "MODEL-ERROR" in out:
        # a recording the specification cannot even evaluate (an event that no behaviour of it can look
        # like) is isolated by bisection; anything else is an error of the check
        if len(idx) > 1:
            h = len(idx) // 2
            fails = judge_shard(ctx, lines, idx[:h], spec, workers, heap, depth + 1)
            fails.update(judge_shard(ctx, lines, idx[h:], spec, workers, heap, depth + 1))
            return fails
        if "MODEL-ERROR" in out or "OutOfMemory" in out or not re.search("unexpected exception|[Ee]valuat", out):
            raise RuntimeError("TLC failed on a recorded trace (rc=%s):\n%s" % (rc, out[-3000:]))
        ctx.notes.append("unjudgeable trace: " + out[-1500:])
        return {idx[0]: (1, {("X", "not-a-behaviour")})}
    g, d = tlc_stats(out)
    ctx.cov["states"] += d; ctx.cov["transitions"] += g
    return {idx[int(t) - 1]: (int(i), set(TAGRE.findall(body))) for t, i, body in FAILRE.findall(out)}


def judge(ctx, lines, spec="HashMapTrace", shard=None):
    """Let TLC judge recorded traces.  Returns {index: (event number, set of (property, clause))}."""
    if not lines:
        return {}
    total = sum(map(len, lines))
    k = max(1, min(4, total // 1500000 + 1))
    shards = [list(range(i, len(lines), k)) for i in range(k)]
    fails = {}

    def one(n):
        return judge_shard(ctx, lines, shards[n], spec, max(2, NCPU // k), "6g" if k == 1 else "3g")
    with cf.ThreadPoolExecutor(k) as ex:
        for f in ex.map(one, range(k)):
            fails.update(f)
    ctx.cov["traces_validated_against_impl"] += len(lines)
    return fails


# ------------------------------------------------------------------ the conformance campaign
def campaign(ctx, jobs, focus=None, chunk=40):
    """jobs: list of (config, [trace, ...]) where a trace is a list of script lines."""
    focus = focus or ctx.prop
    bins = build(ctx, [c for c, _ in jobs])
    units = []
    for c, traces in jobs:
        if c in bins:
            for i in range(0, len(traces), chunk):
                units.append((c, traces[i:i + chunk]))

    def one(u):
        n, (c, traces) = u
        return c, traces, run_traces(bins[c], traces, ctx.work, "u%d" % n)
    lines, meta = [], []
    nev = 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for c, traces, res in ex.map(one, list(enumerate(units))):
            for t, line in zip(traces, res):
                if line is not None:
                    lines.append(line); meta.append((c, t)); nev += line.count('{"op"')
    ctx.cov["events"] += nev
    for k in sorted(set(ctx.rng("samples").randrange(len(lines)) for _ in range(2))) if lines else []:
        c, t = meta[k]
        ctx.cov["samples"].append(dict(kind="validated trace", configuration=cname(c), script=t[:40], script_lines=len(t), recorded_first_events=json.loads(lines[k])[1:3]))
    # judge in batches, bounded in size
    fails = {}
    b0 = 0
    while b0 < len(lines):
        b1, size = b0, 0
        while b1 < len(lines) and size < 24000000:
            size += len(lines[b1]); b1 += 1
        for k, v in judge(ctx, lines[b0:b1]).items():
            fails[b0 + k] = v
        b0 = b1
    other = {}
    hit = []
    for k, (ev, tags) in sorted(fails.items()):
        if any(p == focus or p == "X" for p, _ in tags):
            hit.append((k, ev, tags))
        else:
            for p, cl in tags:
                other.setdefault(p, set()).add(cl)
    if other:
        ctx.notes.append("clauses of other properties not met in these traces: " + str({p: sorted(c) for p, c in other.items()}))
    ctx.parts.append(dict(kind="trace-validation", configurations=len(set(c for c, _ in jobs)), traces=len(lines), events=nev,
                          rejected=len(hit)))
    seen = set()
    for k, ev, tags in hit:
        cls = tuple(sorted(cl for p, cl in tags if p == focus or p == "X"))
        if cls in seen or len(seen) >= 4:
            continue
        seen.add(cls)
        c, t = meta[k]
        script, nfail = minimise(ctx, bins[c], t, focus, 25.0 if not ctx.violations else 0.0)
        events = json.loads(lines[k])
        rp = save_replay(ctx, "%s-%s" % (cname(c), "-".join(cls)[:60]),
                         dict(kind="trace", property=focus, config=cname(c), configuration=list(c), clauses=sorted(cls),
                              rejected_event=ev, script=script, reproduced=nfail, last_events=events[max(0, ev - 4):ev]))
        ctx.violations.append(dict(what="%s: %s at event %d (%s)" % (cname(c), ", ".join(cls), ev, json.dumps(events[ev - 1])[:200]), replay=rp))
    return fails, lines, meta


def fcampaign(ctx, jobs, spec, chunk=30):
    """Conformance of functions: jobs = [(name, compile command without -o, traces)], judged by spec."""
    bins = {}

    def comp(j):
        out = os.path.join(ctx.work, "f_" + re.sub(r"[^A-Za-z0-9_]", "_", j[0]))
        return j, out, build_one(j[1] + ["-o", out], out)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j, out, (ok, log) in ex.map(comp, jobs):
            if ok:
                bins[j[0]] = out
            else:
                rp = save_replay(ctx, "build-" + j[0], dict(kind="build", command=j[1], log=log[-6000:]))
                ctx.violations.append(dict(what="%s does not compile" % j[0], replay=rp))
    units = [(j[0], j[2][i:i + chunk]) for j in jobs if j[0] in bins for i in range(0, len(j[2]), chunk)]

    def one(u):
        n, (name, traces) = u
        return name, traces, run_traces(bins[name], traces, ctx.work, "u%d" % n)
    lines, meta, nev, lost = [], [], 0, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for name, traces, res in ex.map(one, list(enumerate(units))):
            for t, line in zip(traces, res):
                if line is None:
                    lost += 1
                else:
                    lines.append(line); meta.append((name, t)); nev += line.count('{"op"')
    ctx.cov["events"] += nev
    for k in sorted(set(ctx.rng("samples").randrange(len(lines)) for _ in range(2))) if lines else []:
        ctx.cov["samples"].append(dict(kind="validated trace", configuration=meta[k][0], script=meta[k][1][:20], script_lines=len(meta[k][1]), recorded_first_events=json.loads(lines[k])[1:3]))
    fails, b0 = {}, 0
    while b0 < len(lines):
        b1, size = b0, 0
        while b1 < len(lines) and size < 24000000:
            size += len(lines[b1]); b1 += 1
        for k, v in judge(ctx, lines[b0:b1], spec).items():
            fails[b0 + k] = v
        b0 = b1
    ctx.parts.append(dict(kind="trace-validation", spec=spec, configurations=len(jobs), traces=len(lines), events=nev, rejected=len(fails), lost=lost))
    seen = set()
    for k, (ev, tags) in sorted(fails.items()):
        cls = tuple(sorted(cl for p, cl in tags if p in (ctx.prop, "X")))
        if not cls or cls in seen or len(seen) >= 6:
            continue
        seen.add(cls)
        name, t = meta[k]
        events = json.loads(lines[k])
        script, again = minimise(ctx, bins[name], t, ctx.prop, 10.0 if not ctx.violations else 0.0, spec) if len(t) > 2 else (t, False)
        rp = save_replay(ctx, name + "-" + "-".join(cls)[:60],
                         dict(kind="trace", property=ctx.prop, config=name, spec=spec, clauses=sorted(cls), rejected_event=ev, script=script, reproduced=again,
                              compile=[j[1] for j in jobs if j[0] == name][0], event=events[ev - 1] if ev <= len(events) else None))
        ctx.violations.append(dict(what="%s: %s at event %d (%s)" % (name, ", ".join(cls), ev, json.dumps(events[ev - 1])[:200]), replay=rp))


def model(ctx, name, config=None, timeout=600, heap="4g"):
    """Check a closed specification exhaustively (independent of the code: an error here is an error of the check)."""
    rc, out = tlc(["-config", (config or name) + ".cfg", "-deadlock", name + ".tla"], workers=NCPU, heap=heap, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise RuntimeError("model %s: rc=%s\n%s" % (config or name, rc, out[-3000:]))
    g, d = tlc_stats(out)
    ctx.cov["states"] += d; ctx.cov["transitions"] += g
    ctx.parts.append(dict(kind="exhaustive model checking", spec=name, config=config or name, distinct_states=d, states_generated=g))


def rejected(ctx, binary, script, focus, spec="HashMapTrace"):
    res = run_traces(binary, [script], ctx.work, "min%d" % random.getrandbits(30), max_restarts=1)
    ls = [x for x in res if x]
    if not ls:
        return False
    cov = dict(ctx.cov)
    try:
        f = judge(ctx, ls, spec)
    finally:
        ctx.cov = cov
    return any(p == focus or p == "X" for _, tags in f.values() for p, _ in tags)


def minimise(ctx, binary, trace, focus, budget=25.0, spec="HashMapTrace"):
    """Cut the script from the end and in chunks while it is still rejected."""
    t0 = time.time()
    try:
        if not rejected(ctx, binary, trace, focus, spec):
            return trace, False
        head, body = trace[:1], trace[1:]
        n = max(1, len(body) // 2)
        while n >= 1 and time.time() - t0 < budget:
            i = 0; changed = False
            while i < len(body) and time.time() - t0 < budget:
                cand = body[:i] + body[i + n:]
                if rejected(ctx, binary, head + cand, focus, spec):
                    body = cand; changed = True
                else:
                    i += n
            if n == 1 and not changed:
                break
            n = n // 2 if n > 1 else (1 if changed else 0)
        return head + body, True
    except RuntimeError:
        return trace, False


def save_replay(ctx, name, obj):
    d = os.path.join(EVID, "replay"); os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9_.-]", "_", name)
    p = os.path.join(d, "%s-%s.json" % (ctx.prop, name))
    with open(p, "w") as f:
        json.dump(obj, f, indent=1)
    return p


# ------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def finish(ctx, level="model_checking", extra=None):
    cov = dict(ctx.cov); cov["parts"] = ctx.parts
    if extra:
        cov.update(extra)
    if ctx.notes:
        cov["notes"] = ctx.notes
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, wall_s=round(time.time() - ctx.t0, 1), violations=len(ctx.violations))
    with open(os.path.join(EVID, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in ctx.violations:
        print("  " + v["what"][:400])
    for v in ctx.violations[:1]:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, v["replay"]))
    if not ctx.violations:
        print("%s %s: held on everything explored: %s" % (ctx.prop, ctx.tier, json.dumps({k: v for k, v in cov.items() if k != "samples"})[:900]))
    ctx.done()
    return 1 if ctx.violations else 0
