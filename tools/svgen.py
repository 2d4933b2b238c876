"""Script generators for the string view harness (harness/sv_main.cpp)."""
import itertools


def chars(w):
    return " ".join(map(str, w))


def alphabet(ct):
    if ct == "char":
        return [0, 97, 255]
    if ct == "char16_t":
        return [0, 0x100, 0xFF01]
    return [0, 0x100, 0x7FFFFF01]


def big_alphabet(ct):
    a = [0, 1, 32, 97, 98, 127, 128, 200, 255]
    if ct == "char16_t":
        a += [0x100, 0x101, 0x7FFF, 0x8000, 0xFF00, 0xFFFF]
    if ct == "wchar_t":
        a += [0x100, 0x101, 0xFFFF, 0x10000, 0x1000000, 0x7FFFFFFF]
    return a


WHERE = ["e", "s", "g0", "g1", "g2", "g3", "g5", "g7", "g9", "g11", "g13", "g15"]


def exhaustive_pairs(ct, maxlen, part=0, parts=1):
    """Every pair of strings up to maxlen over a three letter alphabet."""
    words = [w for n in range(maxlen + 1) for w in itertools.product(alphabet(ct), repeat=n)]
    for k, a in enumerate(words):
        if k % parts != part:
            continue
        t = ["T pairs%d" % k, "new 0 0 e " + chars(a)]
        for b in words:
            t += ["new 1 0 e " + chars(b), "cmp 0 1", "cst 0 e " + chars(b)]
        yield t


def rep(n, c):
    return [c] * n


def differing(ct, rng, lengths):
    """Two long strings with one difference (or none, or a different length), around vector widths, at every position."""
    al = big_alphabet(ct)
    for n in lengths:
        t = ["T diff%d" % n]
        base = [rng.choice(al) for _ in range(n)]
        for p in sorted(set(list(range(min(n, 40))) + [n - 1, n - 2, n // 2])) + [-1, -1]:
            if p >= n or (p < 0 and p != -1):
                continue
            o = list(base)
            if p >= 0:
                while o[p] == base[p]:
                    o[p] = rng.choice(al)
                if rng.random() < 0.5:                       # something else differs behind the first difference
                    for q in range(p + 1, n):
                        if rng.random() < 0.3:
                            o[q] = rng.choice(al)
            x = rng.random()
            if x < 0.2:
                o = o[:rng.randint(0, len(o))]
            elif x < 0.35:
                o = o + [rng.choice(al) for _ in range(rng.randint(1, 20))]
            w1, w2 = ("e", "e") if rng.random() < 0.6 else (rng.choice(WHERE), rng.choice(WHERE))
            t += ["new 0 0 %s %s" % (w1, chars(base)), "new 1 0 %s %s" % (w2, chars(o)), "cmp 0 1", "cmp 1 0"]
            if rng.random() < 0.3:
                t += ["cst 0 %s %s" % (rng.choice("es"), chars(o)), "cst 1 e %s" % chars([c for c in base if c])]
            if rng.random() < 0.3:
                m = rng.randint(0, n)
                t += ["cc %s %d %s" % (rng.choice("es"), len(base), chars(base + o))]
                t += ["p2 0 %d %s 1" % (m, rng.choice(["n", "h", str(rng.randint(0, n + 2))]))]
        yield t


def val(rng, n, past=True):
    x = rng.random()
    if x < 0.08:
        return "n"
    if x < 0.16:
        return "h"
    return str(rng.randint(0, n + (3 if past else 0)))


def walk(ct, rng, k, nops):
    """A random walk over all operations."""
    al = big_alphabet(ct)
    small = rng.sample(al, 3) if rng.random() < 0.6 else al
    if rng.random() < 0.5 and 0 not in small:
        small = [0] + list(small)
    L = [0, 0, 0, 0]
    t = ["T walk%d" % k]
    maxn = rng.choice([4, 8, 18, 36, 70])

    def word(m=None):
        return [rng.choice(small) for _ in range(rng.randint(0, m or maxn))]
    last = [[], [], [], []]
    for _ in range(nops):
        r, q = rng.randrange(4), rng.randrange(4)
        x = rng.random()
        if x < 0.22:
            how = rng.randrange(13)
            if rng.random() < 0.5 and last[q]:
                w = list(last[q])
                if w and rng.random() < 0.6:
                    w[rng.randrange(len(w))] = rng.choice(small)
                if rng.random() < 0.3:
                    w = w[:rng.randint(0, len(w))]
            else:
                w = word()
            t.append("new %d %d %s %s" % (r, how, rng.choice(WHERE) if rng.random() < 0.5 else "e", chars(w)))
            last[r] = w
            L[r] = len(w)
        elif x < 0.26:
            t.append("cp %d %d %d" % (r, q, rng.randrange(3))); last[r] = last[q]
        elif x < 0.34:
            n = len(last[q])
            t.append("sub %d %d %s %s" % (r, q, val(rng, n), rng.choice(["d", val(rng, n), val(rng, n), "m"])))
            last[r] = last[q]
        elif x < 0.38:
            t.append("swp %d %d %d" % (r, q, rng.randrange(3))); last[r], last[q] = last[q], last[r]
        elif x < 0.39:
            t.append("clr %d" % r)
        elif x < 0.43:
            t.append("new %d 12 %s %s" % (r, rng.choice(WHERE[1:]), chars(word(12))))
            for _ in range(rng.randint(1, 4)):
                t.append("app %d %d %s" % (r, rng.randrange(5), chars(word(10))))
        elif x < 0.60:
            t += ["cmp %d %d" % (r, q), "cmp %d %d" % (q, r)]
        elif x < 0.66:
            w = last[q] if rng.random() < 0.6 else word()
            t.append("cst %d %s %s" % (r, rng.choice("es"), chars(w)))
        elif x < 0.72:
            t.append("p2 %d %s %s %d" % (r, val(rng, len(last[r])), val(rng, len(last[r])), q))
        elif x < 0.78:
            t.append("p4 %d %s %s %d %s %s" % (r, val(rng, len(last[r])), val(rng, len(last[r])), q, val(rng, len(last[q])), val(rng, len(last[q]))))
        elif x < 0.82:
            t.append("pc %d %s %s %s %s" % (r, val(rng, len(last[r])), val(rng, len(last[r])), rng.choice("es"), chars(last[q] if rng.random() < 0.7 else word())))
        elif x < 0.86:
            w = [c for c in (last[q] if rng.random() < 0.7 else word()) if c]
            t.append("pn %d %s %s %d %s %s" % (r, val(rng, len(last[r])), val(rng, len(last[r])), rng.randint(0, len(w)), rng.choice("es"), chars(w)))
        elif x < 0.91:
            t.append("copy %d %s %s" % (r, rng.choice(["d", val(rng, len(last[r]))]), val(rng, len(last[r]))) if rng.random() < 0.8 else "copy %d %s d" % (r, val(rng, len(last[r]))))
        elif x < 0.95:
            t.append("at %d %s" % (r, val(rng, len(last[r]))))
        else:
            t.append("obs %d" % r)
    t += ["obs %d" % r for r in range(4)]
    return t
