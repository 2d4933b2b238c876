"""Generators of operation scripts for the tracing harness.

A generator never predicts results: it only chooses operations.  Deciding whether what the real
code did is right is the business of the TLA+ specification.  Everything is a function of the seed.
"""
import random

LVX = ["pcl", "tm", "epm", "ekm"]
RVX = ["pcv", "hpc", "epcx", "tx", "thx", "ekx", "ehx", "epwx", "tmr", "ekmr"]
LVAX = ["akx", "ali"]
RVAX = ["ax", "ahx", "alr"]
LV = ["cl", "ll", "pl", "pc", "hcl", "ekv", "ekc", "epl", "epc", "epw", "eh", "tc", "tl", "th"]
LVA = ["ac", "al", "ah"]
RV = ["rv", "pr", "ekr", "epr", "epwr", "tr", "hrv", "hpr", "ehr", "thr"]
RVA = ["ar", "ahr"]
ALLF = LV + LVA + RV + RVA

INJECTABLE = {"newrc", "newm", "insm", "mova", "masg", "new", "newr", "newil", "cpy", "cpya", "casg", "ins", "idx", "idxs", "insr", "insil", "rsv", "reh", "shr", "era"}


class Prof:
    """Weights of the operation groups and sizes of one kind of trace."""
    def __init__(self, **kw):
        self.nkeys = 24            # key universe
        self.length = 60
        self.nobj = 3
        self.w = dict(ins=20, assign=8, idx=6, find=8, has=3, at=3, set=3, era=12, erai=3, erar=2, erif=1, erall=1,
                      eraks=1, iter=1, insm=1, newrc=1, newm=1, clr=1, rsv=2, reh=2, shr=2, mlf=1, obs=3, dump=0, cdump=2, insr=2, insil=1,
                      cpy=1, cpya=1, mov=1, mova=1, casg=1, masg=1, swp=1, ilasg=1, **{"del": 1, "new": 1, "newr": 1, "newil": 1},
                      bins=1, bera=1, bfind=1, hug=0.3)
        self.dump_every = 5
        self.inject = 0.0
        self.inject_max = 6
        self.fm = 3
        self.hm = None             # hash mode op args
        self.caps = [0, 0, -1, 1, 7, 30, 40]
        self.rsvmax = 120
        self.tag = 0
        self.bulk = 60
        self.growth = 0.0          # > 0: prefer fresh keys
        self.chain = 0             # > 0: start with so many keys
        self.stride = 1            # distance of those keys
        self.stair = None          # (capacity, keys per home, homes in the order of insertion): runs of displaced elements
        self.only = None           # if set: weights of the listed ops only
        for k, v in kw.items():
            if k == "w":
                self.w = dict(self.w); self.w.update(v)
            else:
                setattr(self, k, v)
        if self.only is not None:
            self.w = dict(self.only)


class Gen:
    def __init__(self, rng, prof, tp="", name="t"):
        self.r, self.p = rng, prof
        self.out = ["T %s %s" % (tp, name)]
        self.live = {}             # object -> approximate key set
        self.n = 0

    def emit(self, s):
        self.out.append(s)

    def key(self, o, present=None):
        ks = self.live.get(o, set())
        if present is None:
            present = self.r.random() < 0.5
        if present and ks:
            return self.r.choice(sorted(ks)) if len(ks) < 64 else self.r.choice(list(ks))
        if self.p.stair and self.r.random() < 0.6:
            c, run, homes = self.p.stair
            return self.r.choice(homes) + c * self.r.randrange(run)
        return self.r.randrange(self.p.nkeys)

    def aid(self, o):              # the allocator of an object: equal ones and different ones
        return self.r.choice([o + 1, 1, 1, 2])

    def val(self):
        return self.r.randrange(1, 1000)

    def pairs(self, o, n):
        a = []
        for _ in range(n):
            a += [self.key(o, None if self.r.random() < 0.7 else True), self.val()]
        return a

    def op(self, name):
        r, p = self.r, self.p
        dead = [o for o in range(p.nobj) if o not in self.live]
        live = sorted(self.live)
        inj = ""
        iname = {"assign": "ins"}.get(name, name)
        if p.inject and iname in INJECTABLE and r.random() < p.inject:
            inj = "x%d " % r.randint(1, p.inject_max)

        def E(s):
            self.emit(inj + s)
        if name in ("new", "newr", "newil", "newrc"):
            if not dead:
                return
            o = r.choice(dead)
            if name == "new":
                E("new%s %d %d %d %d" % (r.choice(["", "", "", "", ":ca" if p.caps == [64] else ":a", ":ca", ":cha"]), o, r.choice(p.caps), p.tag and r.choice([0, p.tag, p.tag + 1]), self.aid(o)))
                if not inj:
                    self.live[o] = set()
            elif name == "newr":
                pr = self.pairs(o, r.choice([0, 1, 2, 5, 20, p.bulk]))
                E("newr%s %d " % (r.choice(["", ":l", ":i", ":m", ":v"]), o) + " ".join(map(str, pr)))
                if not inj:
                    self.live[o] = set(pr[::2])
            elif name == "newrc":
                pr = self.pairs(o, r.choice([0, 1, 2, 5, 20, p.bulk]))
                E("newrc%s %d %d %d %d " % (r.choice([":c", ":che", ":ca", ":cha", ":chea"]), o, max(0, r.choice(p.caps)),
                                            p.tag and r.choice([0, p.tag, p.tag + 1]), self.aid(o)) + " ".join(map(str, pr)))
                if not inj:
                    self.live[o] = set(pr[::2])
            else:
                pr = self.pairs(o, 3)
                E("newil%s %d " % (r.choice(["", ":c", ":a", ":ca", ":cha", ":chea"]), o) + " ".join(map(str, pr))
                  + " %d %d %d" % (max(0, r.choice(p.caps)), p.tag and r.choice([0, p.tag, p.tag + 1]), self.aid(o)))
                if not inj:
                    self.live[o] = set(pr[::2])
            if inj:                # alive or not is up to the execution: probe it, then drop it
                self.emit("dump %d" % o); self.emit("del %d" % o)
            return
        if not live:
            return self.op("new")
        o = r.choice(live)
        ks = self.live[o]
        if name == "newm":
            if not dead:
                return
            d = r.choice(dead)
            E("newm%s %d %d" % (r.choice(["", ":c"]), d, o))
            if inj:
                self.emit("dump %d" % d); self.emit("del %d" % d)
            else:
                self.live[d] = set(ks)
            return
        if name == "insm":
            q = r.choice(live)
            E("insm%s %d %d" % (r.choice(["", ":c"]), o, q))
            if not inj:
                ks |= self.live[q]
            else:
                self.emit("dump %d" % o)
            return
        if name in ("cpy", "cpya", "mov", "mova"):
            if not dead:
                return
            d = r.choice(dead)
            E("%s %d %d %d" % (name, d, o, self.aid(d)))
            if inj:
                self.emit("dump %d" % o); self.emit("dump %d" % d); self.emit("del %d" % d)
            else:
                self.live[d] = set(ks)
                if name.startswith("mov"):
                    self.live[o] = set()
                if r.random() < 0.7:
                    self.emit("obs %d" % d); self.emit("dump %d" % d); self.emit("dump %d" % o)
            return
        if name in ("casg", "masg", "swp"):
            q = r.choice(live)
            if name == "masg" and q == o:
                return
            how = r.choice(["", ":adl", ":std"]) if name == "swp" else ""
            E("%s%s %d %d" % (name, how, o, q))
            if not inj and q != o:
                if name == "swp":
                    self.live[o], self.live[q] = self.live[q], self.live[o]
                else:
                    self.live[o] = set(self.live[q])
                    if name == "masg":
                        self.live[q] = set()
            if inj or r.random() < 0.7:
                self.emit("obs %d" % o); self.emit("dump %d" % o); self.emit("dump %d" % q)
            return
        if name == "ilasg":
            pr = self.pairs(o, 3)
            E("ilasg %d " % o + " ".join(map(str, pr)))
            self.live[o] = set(pr[::2])
            self.emit("dump %d" % o)
            return
        if name == "del":
            if len(live) > 1:
                self.emit("del %d" % o); del self.live[o]
            return
        if name in ("ins", "assign"):
            k = self.key(o, False if r.random() < p.growth else None)
            x = r.random() < 0.3
            f = r.choice(LVX + RVX if x else LV + RV) if name == "ins" else r.choice(LVAX + RVAX if x else LVA + RVA)
            E("ins:%s %d %d %d" % (f, o, k, self.val()))
            if not inj:
                ks.add(k)
            elif r.random() < 0.3:
                self.emit("dump %d" % o)
        elif name == "idx":
            k = self.key(o)
            h = r.choice(["", ":r"])
            if r.random() < 0.5:
                E("idx%s %d %d" % (h, o, k))
            else:
                E("idxs%s %d %d %d" % (h, o, k, self.val()))
            if not inj:
                ks.add(k)
        elif name in ("insr", "insil"):
            pr = self.pairs(o, 3 if name == "insil" else r.choice([0, 1, 2, 4, 12]))
            E("%s%s %d " % (name, r.choice(["", ":l", ":i", ":m", ":v"]) if name == "insr" else "", o) + " ".join(map(str, pr)))
            if not inj:
                ks |= set(pr[::2])
        elif name == "find":
            self.emit("%s%s %d %d" % (r.choice(["find", "cfind"]), r.choice(["", "", ":x", ":r"]), o, self.key(o)))
        elif name == "has":
            self.emit("has%s %d %d" % (r.choice(["", "", ":x"]), o, self.key(o)))
        elif name == "at":
            self.emit("%s %d %d" % (r.choice(["at", "cat"]), o, self.key(o)))
        elif name == "set":
            self.emit("set %d %d %d" % (o, self.key(o), self.val()))
        elif name == "era":
            k = self.key(o, r.random() < 0.8)
            E("era%s %d %d" % (r.choice(["", "", ":x"]), o, k))
            if not inj:
                ks.discard(k)
        elif name == "eraks":
            a = [self.key(o) for _ in range(r.choice([0, 1, 2, 5, 12]))]
            self.emit("eraks%s %d " % (r.choice(["", ":l"]), o) + " ".join(map(str, a)))
            ks -= set(a)
        elif name == "iter":
            self.emit("iter %d" % o)
        elif name == "erai":
            k = self.key(o, True)
            self.emit("erai%s %d %d" % (r.choice(["", ":c"]), o, k))
            ks.discard(k)
        elif name == "erar":
            n = len(ks)
            i = r.randint(0, n); j = min(n, i + r.choice([0, 1, 2, 3, n]))
            if r.random() < 0.15:
                i, j = 0, n
            self.emit("erar%s %d %d %d" % (r.choice(["", ":c"]), o, i, j))
            # which keys are gone is unknown here; keep the approximation
        elif name in ("erif", "erall"):
            m = r.choice([1, 2, 3, 5]); q = r.randrange(m)
            if m == 1 and r.random() < 0.7:
                m, q = 4, 1
            self.emit("%s %d %d %d" % (name, o, m, q))
            self.live[o] = {k for k in ks if k % m != q}
        elif name == "clr":
            self.emit("clr%s %d" % (r.choice(["", ":t"]), o)); self.live[o] = set()
        elif name == "rsv":
            E("rsv%s %d %d" % (r.choice(["", "", "", ":z", ":t", ":zt"]), o, r.choice([0, 1, len(ks), len(ks) + 1, r.randint(0, p.rsvmax), r.randint(0, p.rsvmax)])))
        elif name == "reh":
            E("reh%s %d %d" % (r.choice(["", "", "", ":z", ":t"]), o, r.choice([0, 1, len(ks), len(ks) + 1, r.randint(0, p.rsvmax)])))
        elif name == "hug":
            self.emit("hug:%s %d %d %d" % (r.choice("rrhhc"), o, r.choice((50, 55, 56, 57, 58, 59, 60, 61, 62, 62, 63, 63, 64, 64)), r.choice((0, 0, 1, 2, 5))))
        elif name == "shr":
            E("shr%s %d" % (r.choice(["", "", ":t"]), o))
        elif name == "mlf":
            self.emit("mlf %d %d" % (o, r.choice([100, 300, 350, 450, 500, 550, 600, 700, 800, 875, 990, r.randint(250, 950)])))
        elif name in ("obs", "dump", "cdump"):
            self.emit("%s %d" % (name, o))
        elif name == "bins":
            a = r.randrange(p.nkeys); n = r.randint(1, p.bulk); s = r.choice([1, 1, 2, 3, 7])
            self.emit("bins:%s %d %d %d %d %d" % (r.choice(["e", "t", "i"]), o, a, a + n * s, s, r.randint(1, 50)))
            ks |= set(range(a, a + n * s, s))
        elif name == "bera":
            a = r.randrange(p.nkeys); n = r.randint(1, p.bulk); s = r.choice([1, 1, 2, 3])
            self.emit("bera %d %d %d %d" % (o, a, a + n * s, s))
            ks -= set(range(a, a + n * s, s))
        elif name == "bfind":
            self.emit("bfind %d 0 %d" % (o, p.nkeys + p.bulk))
        else:
            raise ValueError(name)

    def run(self):
        p, r = self.p, self.r
        if p.hm:
            self.emit("hm " + " ".join(map(str, p.hm)))
        if p.inject:
            self.emit("fm %d" % p.fm)
        if p.chain:
            t = p.stride; self.emit("new 0 0 0"); self.live[0] = set(range(0, p.chain * t, t))
            p.nkeys = max(p.nkeys, p.chain * t)
            for a in range(0, p.chain, max(1, p.chain // 3)):
                self.emit("bins:%s 0 %d %d %d %d" % (r.choice(["e", "t", "i"]), a * t, min(p.chain, a + max(1, p.chain // 3)) * t, t, r.randint(1, 50)))
            self.emit("bfind 0 0 %d" % p.nkeys)
        names = [k for k in p.w if p.w[k] > 0]; ws = [p.w[k] for k in names]
        if p.stair:
            c, run, homes = p.stair
            self.emit("new 0 %d 0 0" % c)
            p.nkeys = c * (run + 2); self.live[0] = set(h + c * j for h in homes for j in range(run))
            o, at = 0, r.choice([1, len(homes) // 2, len(homes) - 1, None, None])
            for n, h in enumerate(homes):
                if n == at and n > 0:                      # the rest goes to a table swapped or moved into another object
                    if r.random() < 0.6:
                        self.emit("new 1 %d 0 0" % r.choice([-1, -1, 0, 4, c // 2, c])); self.emit("swp 0 1"); self.live = {0: set(), 1: self.live[0]}
                    else:
                        self.emit("mov 1 0"); self.live = {0: set(), 1: self.live[0]}
                    o = 1
                self.emit("bins:%s %d %d %d %d %d" % (r.choice(["e", "t", "i"]), o, h, h + c * run, c, r.randint(1, 50)))
                if n == len(homes) - 1 or n == at:
                    for _ in range(4):                     # one more element here and there
                        k = r.choice(homes) + c * r.randrange(run, run + 2)
                        self.emit("ins:%s %d %d %d" % (r.choice(LV), o, k, self.val())); self.live[o].add(k)
            self.emit("bfind %d 0 %d" % (o, p.nkeys))
        if not p.chain and not p.stair:
            self.op("new")
        for n in range(p.length):
            self.op(r.choices(names, ws)[0])
            if p.dump_every and n % p.dump_every == p.dump_every - 1 and self.live:
                self.emit("dump %d" % r.choice(sorted(self.live)))
        for o in sorted(self.live):
            self.emit("dump %d" % o)
            self.emit("bfind %d 0 %d" % (o, p.nkeys))
        return self.out


def hash_mode(r, kind):
    """A hash mode line for the controllable hasher.  kind: 'g' group maps, 'r' robin."""
    c = r.randrange(7)
    if kind == "g":
        if c == 0:
            return (0,)
        if c == 1:                      # everything collides
            return (1, 1, 0, 1, 1, r.choice([0, 1, 2, 255, 256, 0x7FFFFFFF, r.getrandbits(31)]))
        if c in (2, 3, 4):              # few home groups (top bits), few control hashes (low bits)
            return (2, r.choice([1, 2, 3, 8]), r.choice([56, 58, 60, 61, 62]), r.choice([1, 2, 8, 300]), r.choice([1, 1, 8, 256]), r.choice([0, 1, 250, 253]))
        if c == 5:
            return (4, r.choice([3, 17, 1000]), 0, 1, r.choice([1, 256, 1 << 20]))
        return (5,)
    if c == 0:
        return (0,)
    if c == 1:
        return (4, r.choice([5, 9, 16, 33]), 0, 1, r.choice([1, 2, 4, 8]))       # clusters of neighbouring homes
    if c == 2:
        return (2, r.choice([4, 16, 64]), r.choice([0, 1, 2]), r.choice([1, 2, 8]), r.choice([1, 256, 4096]), r.choice([0, 3, 255]))
    if c == 3:
        return (2, r.choice([8, 32]), 0, 4, 64, r.choice([0, 1, 60]))
    if c == 4:                          # the last homes of every table: elements past the slot capacity
        return (2, r.choice([1, 2, 3]), 0, r.choice([1, 2]), 1, r.choice([(1 << 30) - 1, (1 << 30) - 2, (1 << 30) - 3]))
    return (r.choice([0, 4, 5]), 1 << 20, 0, 1, 1)
