------------------------------ MODULE Mersenne ------------------------------
(* The Mersenne Twisters MT19937 (32 bit) and MT19937-64 (Matsumoto,          *)
(* Nishimura) as linear recurrences on words of Words.  w is the width in     *)
(* bits.  A generator's state is a window: the last N words of the            *)
(* recurrence; output k is the tempered word N + k.                           *)
EXTENDS Words, SequencesExt

C32(h, l) == <<l, h>>
C64(a, b, c, d) == <<d, c, b, a>>

NW(w) == IF w = 32 THEN 624 ELSE 312            \* words of state
MW(w) == IF w = 32 THEN 397 ELSE 156            \* middle word
LW(w) == w \div 16                              \* limbs of a word
A(w) == IF w = 32 THEN C32(39176, 45279) ELSE C64(46338, 28506, 43366, 6633)            \* 9908B0DF, B5026F5AA96619E9
FI(w) == IF w = 32 THEN C32(27655, 35173) ELSE C64(22609, 62509, 19605, 32557)          \* 6C078965, 5851F42D4C957F2D
F1(w) == IF w = 32 THEN C32(25, 26125) ELSE C64(13981, 59919, 12709, 16261)             \* 1664525, 3935559000370003845
F2(w) == IF w = 32 THEN C32(23896, 35685) ELSE C64(10171, 12006, 34736, 45309)          \* 1566083941, 2862933555777941757
Shift(w) == w - 2

Range0(n) == [k \in 1..n |-> k - 1]

\* seeding with a number
Init0(w, seed) ==
    FoldLeft(LAMBDA s, k: LET x == s[k + 1] IN Append(s, Add(Mul(WXor(x, Shr(x, Shift(w))), FI(w)), Word(LW(w), k + 1))),
             <<seed>>, Range0(NW(w) - 1))

\* seeding with an array of words; index i counts from 0
Mixed(w, s, i, f) == LET p == s[i] IN WXor(s[i + 1], Mul(WXor(p, Shr(p, Shift(w))), f))
Put(w, r, x) == IF r[2] + 1 >= NW(w) THEN <<[r[1] EXCEPT ![r[2] + 1] = x, ![1] = x], 1>> ELSE <<[r[1] EXCEPT ![r[2] + 1] = x], r[2] + 1>>
Keys1(w, s0, ks, c) ==
    FoldLeft(LAMBDA r, k: LET j == k % Len(ks) IN Put(w, r, Add(Add(Mixed(w, r[1], r[2], F1(w)), ks[j + 1]), Word(LW(w), j))), <<s0, 1>>, Range0(c))
Neg(a) == Add(WNot(a), Word(Len(a), 1))
Keys2(w, r0, c) ==
    FoldLeft(LAMBDA r, k: Put(w, r, Add(Mixed(w, r[1], r[2], F2(w)), Neg(Word(LW(w), r[2])))), r0, Range0(c))
MaxI(a, b) == IF a > b THEN a ELSE b
InitKeys(w, seed, ks) ==
    LET r == Keys2(w, Keys1(w, Init0(w, seed), ks, MaxI(NW(w), Len(ks))), NW(w) - 1)
    IN [r[1] EXCEPT ![1] = Shl(Word(LW(w), 1), w - 1)]

\* one step of the recurrence; the lower 31 bits are taken from the next word
Low31(a) == IF Len(a) = 2 THEN <<a[1], a[2] % 32768>> ELSE <<a[1], a[2] % 32768, 0, 0>>
High(a) == IF Len(a) = 2 THEN <<0, a[2] - (a[2] % 32768)>> ELSE <<0, a[2] - (a[2] % 32768), a[3], a[4]>>
Twist(w, u, v) == LET m == Shr(WXor(High(u), Low31(v)), 1) IN IF v[1] % 2 = 1 THEN WXor(m, A(w)) ELSE m

\* the recurrence continued by c words
Extend(w, s, c) ==
    FoldLeft(LAMBDA t, k: LET n == Len(t) - NW(w) IN        \* the words before the window
                          Append(t, WXor(t[n + 1 + MW(w)], Twist(w, t[n + 1], t[n + 2]))), s, Range0(c))
Window(w, s) == SubSeq(s, Len(s) - NW(w) + 1, Len(s))

Temper(w, x) ==
    IF w = 32
    THEN LET a == WXor(x, Shr(x, 11))
             b == WXor(a, WAnd(Shl(a, 7), C32(40236, 22144)))               \* 9D2C5680
             c == WXor(b, WAnd(Shl(b, 15), C32(61382, 0)))                  \* EFC60000
         IN WXor(c, Shr(c, 18))
    ELSE LET a == WXor(x, WAnd(Shr(x, 29), C64(21845, 21845, 21845, 21845)))
             b == WXor(a, WAnd(Shl(a, 17), C64(29142, 32767, 60838, 0)))    \* 71D67FFFEDA60000
             c == WXor(b, WAnd(Shl(b, 37), C64(65527, 61152, 0, 0)))        \* FFF7EEE000000000
         IN WXor(c, Shr(c, 43))

\* the c outputs at the end of a recurrence
Outputs(w, x, c) == Eager(c, [k \in 1..c |-> Temper(w, x[Len(x) - c + k])])
=============================================================================
