"""Executions that decide the properties of the library's functions (C15 views, C16 bit operations, C17 hashes)."""
import os
import mbv, svgen

BASE = ["g++", "-std=c++17", "-O1", "-w", "-DNDEBUG", "-I" + os.path.join(mbv.REPO, "src"), "-I" + mbv.HARN]


def cmd(src, arch="v3", *defs):
    return BASE + [mbv.ARCH[arch]] + list(defs) + [os.path.join(mbv.HARN, src)]


# ------------------------------------------------------------------ C15: string views
def c15(ctx):
    deep = ctx.tier != "quick"
    jobs = []
    for ct in ("char", "wchar_t", "char16_t"):
        for mode in ("", "0", "1", "2", "3"):
            for arch in (("v3", "v2", "v1") if deep else ("v3",) if mode or ct != "char" else ("v3", "v1")):
                d = ["-DCT=" + ct] + (["-DNOSTREAM"] if ct == "char16_t" else []) + (["-DSTRING_UTILS_MODE=" + mode] if mode else [])
                name = "view-%s-m%s-%s" % (ct, mode or "d", arch)
                r = ctx.rng(name)
                ts = list(svgen.exhaustive_pairs(ct, 3 if deep and arch == "v3" else 2))
                ts += list(svgen.differing(ct, r, range(1, 140) if deep else [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64]))
                ts += [svgen.walk(ct, r, k, 60) for k in range(400 if deep else 40)]
                jobs.append((name, cmd("sv_main.cpp", arch, *d), ts))
    mbv.model(ctx, "StringView")
    mbv.fcampaign(ctx, jobs, "StringViewTrace")


# ------------------------------------------------------------------ C16: powers of two and bits
def operands(r, deep):
    ops = set(range(4096 if deep else 300))
    for k in range(64):
        for d in (-3, -2, -1, 0, 1, 2, 3):
            ops.add(((1 << k) + d) & (2**64 - 1))
        for _ in range(60 if deep else 2):
            ops.add(r.getrandbits(64) >> k)
        ops.add((2**64 - 1) << k & (2**64 - 1))
        for j in range(0, 64, 1 if deep else 7):
            ops.add((1 << k) | (1 << j))
            ops.add(((1 << k) - (1 << j)) & (2**64 - 1))
    for k in range(1, 20):
        ops |= {10**k - 1, 10**k, 10**k + 1} if deep or k in (1, 5, 9, 10, 19) else {10**k - r.randrange(2)}
    if deep:
        ops |= set(range(65536 - 4096, 65536 + 4096)) | set(range(2**31 - 600, 2**31 + 600)) | set(range(2**32 - 600, 2**32 + 600))
    return sorted(ops)


def c16(ctx):
    deep = ctx.tier != "quick"
    jobs = []
    for arch in ("v3", "v1"):
        ops = operands(ctx.rng("bits" + arch), deep)
        ts = [["T a%d" % i] + ["x %x" % v for v in ops[i:i + 50]] for i in range(0, len(ops), 50)] + [["T ct", "ct"]]
        jobs.append(("bits-" + arch, cmd("bits_main.cpp", arch), ts))
    mbv.model(ctx, "BitsLaws")
    mbv.fcampaign(ctx, jobs, "BitsTrace", chunk=8)




# ------------------------------------------------------------------ C17: hash functions
def places(r, n):
    w = ["e", "s", "g0"] + ["g%d" % k for k in range(1, 16)]
    return r.choice(w[:2]) if r.random() < 0.4 else r.choice(w[2:])


def content(r, n, kind):
    if kind == 0: return [r.randrange(256) for _ in range(n)]
    if kind == 1: return [r.randrange(1, 256) for _ in range(n)]
    if kind == 2: return [r.randrange(128, 256) for _ in range(n)]
    if kind == 3: return [r.choice((0, 255))] * n
    return [r.choice(b"abcxyz019 ./") for _ in range(n)]


def hash_script(r, deep):
    ls = []
    lens = list(range(0, 40)) + [47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 191, 192, 193, 200]
    if deep:
        lens = list(range(0, 420)) + list(range(0, 40)) * 4
    for n in lens:
        for kind in (range(5) if deep or n < 40 else (0, 1)):
            ls.append("h %s %x %s" % (places(r, n), r.choice((0, 1, 0xbc9f1d34, 0xffffffff, r.getrandbits(32))), " ".join(map(str, content(r, n, kind)))))
    for _ in range(200 if deep else 25):
        ls.append("o %s %s" % (places(r, 0), " ".join(str(r.randrange(256)) for _ in range(r.choice((0, 20, 20, 20))))))
    for n in list(range(0, 34)) + ([47, 48, 63, 64, 65, 100] if deep else [48]):
        for kind in (0, 1, 2) if deep else (1,):
            f = {0: lambda: r.randrange(0, 65536), 1: lambda: r.randrange(1, 65536), 2: lambda: r.choice((1, 255, 256, 65535, 32768, 97))}[kind]
            ls.append("w %s %s" % (places(r, n), " ".join(str(f()) for _ in range(n))))
    vals = [0, 1, 2, 3, 255, 256, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 2**63 - 1, 2**63, 2**64 - 1, 0xffffffff00000000, 0xffffffff00000001]
    pairs = [(x, y) for x in vals for y in vals] if deep else [(r.choice(vals), r.choice(vals)) for _ in range(60)] + [(v, vals[-1 - k]) for k, v in enumerate(vals)]
    pairs += [(r.getrandbits(64) >> r.randrange(64), r.getrandbits(64) >> r.randrange(64)) for _ in range(600 if deep else 60)]
    ls += ["i %x %x" % p for p in pairs]
    r.shuffle(ls)
    return [["T h%d" % k] + ls[k:k + 12] for k in range(0, len(ls), 12)]


def c17(ctx):
    deep = ctx.tier != "quick"
    jobs = []
    for name, arch, defs in (("hash-v3", "v3", []), ("hash-v1", "v1", []), ("hash-macro", "v3", ["-DJSTD_HAVE_SSE42_CRC32C=1", "-U__SIZEOF_INT128__"]),
                             ("hash-portable", "v1", ["-D__ARM64__", "-U__SIZEOF_INT128__"])):
        jobs.append((name, cmd("hash_main.cpp", arch, *defs), hash_script(ctx.rng(name), deep)))
    mbv.model(ctx, "HashVectors")
    mbv.fcampaign(ctx, jobs, "HashTrace", chunk=12)


# ------------------------------------------------------------------ C18: random generators
SGN = 1 << 63


def rnd_script(r, alg, deep):
    mt, bits = alg != "LibcRandom", 64 if alg.endswith("64") else 32
    n, ts = 624 if bits == 32 else 312, []
    seeds = lambda: r.choice((1, 2, 5489, 2**31, 2**32 - 1, 19650218, r.getrandbits(32) | 1, (r.getrandbits(bits) | 1), 2**bits - 1))
    fns = ["rand", "u32", "i32", "u64", "i64", "int", "uint"]
    if mt:
        for k in range(60 if deep else 8):          # whole blocks, so that every word of the state is seen
            s, t = seeds(), ["T blocks%d" % k, "seed 0 ctor %x" % seeds()]
            form = ("ctor", "srand", "srand")[k % 3]
            t += ["draw 0 rand %d" % r.choice((0, 1, n - 1, n, n + 1, 40))] if form == "srand" else []
            t += ["seed 0 %s %x" % (form, s)]
            left = (6 if deep else 2) * n + 30
            while left > 0:
                c = r.choice((1, 2, 7, n - 1, n, n + 1, r.randrange(1, n)))
                t.append("draw 0 %s %d" % (r.choice(fns) if k % 2 else "rand", c)); left -= c
            ts.append(t)
        for k in range(60 if deep else 10):         # key arrays: shorter and longer than the state
            t = ["T keys%d" % k, "seed 1 ctor %x" % seeds()]
            for _ in range(2):
                c = r.choice((1, 2, 3, 4, 5, 17, n - 1, n, n + 1, n + 9, 2 * n + 3) if r.random() < 0.6 else range(1, n))
                o, f = r.randrange(2), r.choice(("ctorp", "ctorv", "srandp", "srandv"))
                if f[0] == "s": t.append("seed %d ctor %x" % (o, seeds()))
                if r.random() < 0.5: t.append("draw %d rand %d" % (o, r.choice((1, 5, n))))
                t.append("keys %d %s %x %s" % (o, f, seeds(), " ".join("%x" % r.choice((0, 1, r.getrandbits(bits), r.getrandbits(bits), 2**bits - 1)) for _ in range(c))))
                t.append("draw %d rand %d" % (o, n + 5))
            ts.append(t)
        for k in range(100 if deep else 10):        # interleaved generators, copies and reseeding; 2 is the shared one
            t = ["T walk%d" % k, "seed 0 ctor %x" % seeds(), "seed 1 ctor %x" % seeds(), "seed 2 srand %x" % seeds()]
            for _ in range(24):
                o, x = r.randrange(3), r.random()
                if x < 0.5: t.append("draw %d %s %d" % (o, r.choice(fns), r.choice((1, 2, 3, 50, n - 1, n, r.randrange(1, n)))))
                elif x < 0.65: t.append("seed %d %s %x" % (o, r.choice(("ctor", "srand")), seeds()))
                elif x < 0.9 and o < 2:
                    f = r.choice("cam")
                    t += ["copy %d %d %s" % (o, 1 - o, f), "draw %d rand 4" % o]
                    if f == "m": t.append("seed %d ctor %x" % (1 - o, seeds()))
                    elif r.random() < 0.5: t += ["seed %d srand %x" % (1 - o, seeds()), "draw %d rand 3" % o]
                    else: t += ["draw %d rand %d" % (1 - o, r.choice((1, n)))]
                    t.append("draw %d rand %d" % (o, r.choice((1, n))))
            ts.append(t)
    ls = ["same %x %s %d" % (seeds(), f, 40) for f in fns for _ in range(10 if deep else 2)]
    for f in ("u32", "u64", "uint", "i32", "i64", "int"):
        b, sg = 32 if f.endswith("32") else 64, f[0] == "i"
        lo_, hi_ = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
        off = SGN if sg else 0
        edge = [lo_, lo_ + 1, lo_ + 2, -7, -1, 0, 1, 2, 3, 6, 1000, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, hi_ - 2, hi_ - 1, hi_]
        edge = [v for v in edge if lo_ <= v <= hi_]
        cases = [(2, a, b2) for a in edge for b2 in edge] + [(1, 0, b2) for b2 in edge]
        if not deep:
            must = [(2, lo_, hi_), (2, hi_, lo_), (1, 0, hi_), (1, 0, lo_), (1, 0, 6), (2, 3, 6), (2, 6, 3), (2, 2, 2), (2, lo_, lo_ + 1), (2, hi_ - 1, hi_), (2, lo_ + 1, hi_), (2, lo_, hi_ - 1)] + ([(1, 0, -7), (2, -7, -1), (2, 1, -1)] if sg else [])
            cases = must + r.sample(cases, 20)
        else:
            for _ in range(300):
                a, w = r.randint(lo_, hi_), r.choice((0, 1, 2, 3, 7, 8, 100, 2**16, 2**31, 2**33, 2**62))
                cases.append(r.choice(((2, a, min(hi_, a + w)), (2, min(hi_, a + w), a))))
        ls += ["rng %s %d %x %x %x 160" % (f, ar, seeds(), a + off, b2 + off) for ar, a, b2 in cases]
    for f in ("f", "d", "d53"):
        for ar, a, b2 in [(0, 0, 0)] * 3 + [(2, -1, 1), (2, 0, 10), (2, 5, -5), (2, 2.5, 2.5), (2, 1024, 4096), (2, -3, -2), (2, 0.5, 0.25)] * (6 if deep else 1):
            ls.append("flt %s %d %x %s %s 120" % (f, ar, seeds(), a, b2))
    r.shuffle(ls)
    return ts + [["T r%d" % k] + ls[k:k + 6] for k in range(0, len(ls), 6)]


def c18(ctx):
    deep = ctx.tier != "quick"
    jobs = []
    for alg in ("MT19937_32", "MT19937_64", "LibcRandom"):
        for opt in ("-O2", "-O0") if deep else ("-O2",):
            name = "rnd-" + alg + opt
            jobs.append((name, cmd("rnd_main.cpp", "v3", "-DALG=" + alg, opt), rnd_script(ctx.rng(name), alg, deep)))
    mbv.model(ctx, "MersenneVectors")
    mbv.fcampaign(ctx, jobs, "MersenneTrace", chunk=6)


FUNCS = dict(C15=c15, C16=c16, C17=c17, C18=c18)
