-------------------------------- MODULE Words --------------------------------
(* Machine words of 16*n bits as sequences of n limbs of 16 bits, the least   *)
(* significant one first (TLC's integers have 31 bits and a sign).            *)
EXTENDS Integers, Sequences, Bitwise

M == 65536
Powers == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow2(k) == Powers[k + 1]

\* a word is built eagerly: TLC would otherwise evaluate a chain of function expressions again for every limb that is read
Eager(n, f) == SubSeq(f, 1, n)

Word(n, x) == IF n = 2 THEN <<x % M, x \div M>> ELSE Eager(n, [k \in 1..n |-> IF k = 1 THEN x % M ELSE IF k = 2 THEN x \div M ELSE 0])     \* 0 <= x < 2^31
Zero(n) == Eager(n, [k \in 1..n |-> 0])

WXor(a, b) == IF Len(a) = 2 THEN <<a[1] ^^ b[1], a[2] ^^ b[2]>> ELSE Eager(Len(a), [k \in 1..Len(a) |-> a[k] ^^ b[k]])
WAnd(a, b) == Eager(Len(a), [k \in 1..Len(a) |-> a[k] & b[k]])
WOr(a, b) == Eager(Len(a), [k \in 1..Len(a) |-> a[k] | b[k]])
WNot(a) == Eager(Len(a), [k \in 1..Len(a) |-> M - 1 - a[k]])

\* propagate carries in a sequence of numbers below 2^30; what leaves at the top is lost
RECURSIVE CarryFrom(_, _, _)
CarryFrom(s, k, c) == IF k > Len(s) THEN <<>> ELSE <<(s[k] + c) % M>> \o CarryFrom(s, k + 1, (s[k] + c) \div M)
Carry(s) == IF Len(s) = 2 THEN <<s[1] % M, (s[2] + s[1] \div M) % M>> ELSE CarryFrom(s, 1, 0)

Add(a, b) == IF Len(a) = 2 THEN Carry(<<a[1] + b[1], a[2] + b[2]>>) ELSE Carry(Eager(Len(a), [k \in 1..Len(a) |-> a[k] + b[k]]))

\* times a constant below 2^14
MulSmall(a, c) == Carry(Eager(Len(a), [k \in 1..Len(a) |-> a[k] * c]))

\* the product of two limbs as two limbs
P(a, b) == LET lo == a * (b % 256)  hi == a * (b \div 256)  s == lo + (hi % 256) * 256
           IN <<s % M, (s \div M) + (hi \div 256)>>

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

\* the first m limbs of the product of two n limb words
MulTo(a, b, m) ==
    LET n == Len(a)
        pp == Eager(n, [i \in 1..n |-> Eager(n, [j \in 1..n |-> P(a[i], b[j])])])
        Col(k) == SumTo([i \in 1..n |-> (IF k + 1 - i \in 1..n THEN pp[i][k + 1 - i][1] ELSE 0)
                                      + (IF k - i \in 1..n THEN pp[i][k - i][2] ELSE 0)], n)
    IN Carry(Eager(m, [k \in 1..m |-> Col(k)]))
Mul(a, b) == MulTo(a, b, Len(a))          \* modulo the width
MulFull(a, b) == MulTo(a, b, 2 * Len(a))

Shl(a, s) == LET q == s \div 16  r == s % 16
                 At(k) == IF k \in 1..Len(a) THEN a[k] ELSE 0
             IN Eager(Len(a), [k \in 1..Len(a) |-> IF r = 0 THEN At(k - q) ELSE ((At(k - q) * Pow2(r)) % M) + (At(k - q - 1) \div Pow2(16 - r))])
Shr(a, s) == LET q == s \div 16  r == s % 16
                 At(k) == IF k \in 1..Len(a) THEN a[k] ELSE 0
             IN Eager(Len(a), [k \in 1..Len(a) |-> IF r = 0 THEN At(k + q) ELSE (At(k + q) \div Pow2(r)) + ((At(k + q + 1) * Pow2(16 - r)) % M)])
Rotl(a, s) == WOr(Shl(a, s), Shr(a, 16 * Len(a) - s))

Lo(a, n) == SubSeq(a, 1, n)
Ext(a, n) == Eager(n, [k \in 1..n |-> IF k <= Len(a) THEN a[k] ELSE 0])

\* n limbs from the bytes b at offset o (counted from 0), little endian
FromBytes(b, o, n) == Eager(n, [k \in 1..n |-> b[o + 2 * k - 1] + 256 * b[o + 2 * k]])
ToBytes(a) == Eager(2 * Len(a), [k \in 1..(2 * Len(a)) |-> IF k % 2 = 1 THEN a[(k + 1) \div 2] % 256 ELSE a[k \div 2] \div 256])
=============================================================================
