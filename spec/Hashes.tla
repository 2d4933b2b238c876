-------------------------------- MODULE Hashes -------------------------------
(* The algorithms behind the library's hash functions, on sequences of bytes  *)
(* or characters, independent of where these lie in memory.                   *)
EXTENDS Words, SequencesExt

C32(hi, lo) == <<lo, hi>>

\* ---- multiplicative string hashes over characters (32 bits) ----
Horner(init, mult, s) == FoldLeft(LAMBDA h, c : Add(MulSmall(h, mult), Word(2, c)), init, s)
BKDR(s) == Horner(Zero(2), 131, s)
Times31(s) == Horner(Zero(2), 31, s)
DJB(s) == Horner(Word(2, 5381), 33, s)

\* AP hash: two alternating steps
AP(s) == FoldLeft(LAMBDA hk, c :
            LET h == hk[1]
                e == IF hk[2] = 0 THEN WXor(WXor(Shl(h, 7), Word(2, c)), Shr(h, 3))
                                  ELSE WNot(WXor(WXor(Shl(h, 11), Word(2, c)), Shr(h, 5)))
            IN <<WXor(h, e), 1 - hk[2]>>, <<Zero(2), 0>>, s)[1]

\* OpenSSL's lh_strhash as the library defines it: 16-bit units, shifted by their number modulo 16
OpenSSL(b) ==
    LET n == Len(b)
        units == Eager((n + 1) \div 2, [k \in 1..((n + 1) \div 2) |-> b[2 * k - 1] + (IF 2 * k <= n THEN 256 * b[2 * k] ELSE 0)])
    IN FoldLeft(LAMBDA hk, u : <<WXor(hk[1], Shl(<<u, 0>>, hk[2] % 16)), hk[2] + 1>>, <<Zero(2), 0>>, units)[1]

\* rocksdb's Hash (similar to murmur); the tail bytes are signed
RocksM == C32(50852, 42899)                \* 0xc6a4a793
Signed(x) == IF x < 128 THEN Word(2, x) ELSE <<65280 + x, 65535>>
Rocks(b, seed) ==
    LET n == Len(b)
        h0 == WXor(seed, Mul(Word(2, n), RocksM))
        Mix(h, w, r) == LET g == Mul(Add(h, w), RocksM) IN WXor(g, Shr(g, r))
        words == [k \in 1..(n \div 4) |-> FromBytes(b, 4 * (k - 1), 2)]
        h1 == FoldLeft(LAMBDA h, w : Mix(h, w, 16), h0, words)
        t == n % 4  o == n - t
        T(k, s) == IF t >= k THEN Shl(Signed(b[o + k]), s) ELSE Zero(2)
    IN IF t = 0 THEN h1 ELSE Mix(h1, Add(Add(T(1, 0), T(2, 8)), T(3, 16)), 24)

\* ---- FNV-1a, 64 bits, over units that are added by exclusive or ----
FnvBasis64 == <<8997, 33826, 40164, 52210>>             \* 14695981039346656037
FnvMul64(x) == Add(MulSmall(x, 435), Shl(x, 40))        \* times 1099511628211 = 2^40 + 435
Fnv1a64(units) == FoldLeft(LAMBDA h, u : FnvMul64(WXor(h, u)), FnvBasis64, units)
FnvBytes(b) == [k \in 1..Len(b) |-> Word(4, b[k])]
FnvWords(b, n) == [k \in 1..(Len(b) \div (2 * n)) |-> Ext(FromBytes(b, 2 * n * (k - 1), n), 4)]
\* keys of 8 and of 4 bytes are hashed as two units
MsvcFnv(b) == Fnv1a64(IF Len(b) = 8 THEN FnvWords(b, 2) ELSE IF Len(b) = 4 THEN FnvWords(b, 1) ELSE FnvBytes(b))

\* ---- CRC-32C (Castagnoli), reflected polynomial 0x82F63B78 ----
CrcPoly == C32(33526, 15224)
CrcBit(c) == IF c[1] % 2 = 1 THEN WXor(Shr(c, 1), CrcPoly) ELSE Shr(c, 1)
CrcTable == Eager(256, [x \in 1..256 |-> CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(Word(2, x - 1)))))))))])
CrcStep(c, byte) == WXor(CrcTable[1 + ((c[1] % 256) ^^ byte)], Shr(c, 8))
CrcRaw(init, b) == FoldLeft(CrcStep, init, b)
Ones == <<65535, 65535>>
Crc32C(b) == WNot(CrcRaw(Ones, b))
\* the library's fast variants pad the tail with zeros up to a multiple of the step and leave the inversion out
Padded(b, m) == b \o [k \in 1..((m - (Len(b) % m)) % m) |-> 0]
CrcPad(b, m) == CrcRaw(Ones, Padded(b, m))
\* of one 64-bit integer: both halves
IntCrc64(x) == CrcRaw(Ones, ToBytes(x)) \o CrcRaw(Zero(2), ToBytes(x))

\* ---- integer mixers ----
FibMul == <<31765, 32586, 31161, 40503>>                 \* 0x9E3779B97F4A7C15
GoldenPrime == <<21851, 18542, 31161, 40503>>             \* 11400714818402800987
Fib64(x) == Shr(Mul(x, GoldenPrime), 28)
Mum64(x, y) == LET p == MulFull(x, y) IN WXor(SubSeq(p, 1, 4), SubSeq(p, 5, 8))
Mum32(x, y) == LET p == MulFull(x, y) IN WXor(SubSeq(p, 1, 2), SubSeq(p, 3, 4))

\* ---- the FNV1A family of G. Kaze (32 bits) ----
KPrime == C32(10, 54247)                                  \* 709607
KBasis == C32(33052, 40389)                               \* 2166136261
KStep(h, x) == Mul(WXor(h, x), KPrime)
W32(b, o) == FromBytes(b, o, 2)
W16(b, o) == <<b[o + 1] + 256 * b[o + 2], 0>>
KFinal(ha, hb) == LET h == KStep(ha, Rotl(hb, 5)) IN WXor(h, Shr(h, 16))
\* a tail of fewer than 8 bytes from offset o: a pair of 16-bit units, one unit, one signed byte
KTail(b, o, ha, hb) ==
    LET n == Len(b) - o
        a1 == IF n >= 4 THEN KStep(ha, W16(b, o)) ELSE ha
        b1 == IF n >= 4 THEN KStep(hb, W16(b, o + 2)) ELSE hb
        o1 == o + 4 * (n \div 4)
        a2 == IF n % 4 >= 2 THEN KStep(a1, W16(b, o1)) ELSE a1
        o2 == o1 + 2 * ((n % 4) \div 2)
        a3 == IF n % 2 = 1 THEN KStep(a2, Signed(b[o2 + 1])) ELSE a2
    IN <<a3, b1>>
KTail8(b, o, ha, hb) ==
    IF Len(b) - o >= 8 THEN KTail(b, o + 8, KStep(ha, W32(b, o)), KStep(hb, W32(b, o + 4))) ELSE KTail(b, o, ha, hb)

\* two overlapping lines of equal length, read side by side, step bytes at a time
Lines(n, step) == LET c == (n + 2 * step - 1) \div (2 * step) IN [count |-> c, off |-> n - c * step]

Yoshimura(b) ==
    LET n == Len(b)
        L == Lines(n, 8)
        S(hh, k) == LET p == 8 * (k - 1) IN
            << KStep(hh[1], WXor(Rotl(W32(b, p), 5), W32(b, p + L.off))), KStep(hh[2], WXor(Rotl(W32(b, p + 4 + L.off), 5), W32(b, p + 4))) >>
        r == IF n >= 16 THEN FoldLeft(S, <<KBasis, KBasis>>, [k \in 1..L.count |-> k]) ELSE KTail8(b, 0, KBasis, KBasis)
    IN KFinal(r[1], r[2])

\* the vector versions: eight lanes of 16 bits; the `rotation' of a vector shifts it by five bytes
Xmm(b, o) == FromBytes(b, o, 8)
XmmShift(b, o) == Eager(8, [k \in 1..8 |-> LET x == IF 2 * k - 1 > 5 THEN b[o + 2 * k - 1 - 5] ELSE 0
                                      y == IF 2 * k > 5 THEN b[o + 2 * k - 5] ELSE 0 IN x + 256 * y])
Lane8(w) == <<w[1], w[2], w[1], w[2], w[1], w[2], w[1], w[2]>>
MulLanes(a) == Eager(8, [k \in 1..8 |-> P(a[k], IF k % 2 = 1 THEN KPrime[1] ELSE KPrime[2])[1]])
VStep(h, x) == MulLanes(WXor(h, x))

\* blocks: 1 for TRIADii (48 bytes of each line at a time), 2 for penumbra (96)
Kaze(b, blocks) ==
    LET n == Len(b)
        step == 48 * blocks
        L == Lines(n, step)
        Blk(hh, p) == << VStep(hh[1], WXor(XmmShift(b, p), Xmm(b, p + L.off))),
                         VStep(hh[2], WXor(XmmShift(b, p + 16 + L.off), Xmm(b, p + 16))),
                         VStep(hh[3], WXor(XmmShift(b, p + 32), Xmm(b, p + 32 + L.off))) >>
        VAll == FoldLeft(Blk, <<Lane8(KBasis), Lane8(KBasis), Lane8(KBasis)>>, [k \in 1..(L.count * blocks) |-> 48 * (k - 1)])
        V == VStep(VStep(VAll[1], VAll[2]), VAll[3])
        vr == << KStep(KStep(KBasis, SubSeq(V, 1, 2)), SubSeq(V, 3, 4)), KStep(KStep(KBasis, SubSeq(V, 7, 8)), SubSeq(V, 5, 6)) >>
        Q == Lines(n, 12)
        S(hh, k) == LET p == 12 * (k - 1) IN
            << KStep(hh[1], WXor(Rotl(W32(b, p), 5), W32(b, p + Q.off))), KStep(hh[2], WXor(Rotl(W32(b, p + 4 + Q.off), 5), W32(b, p + 4))),
               KStep(hh[3], WXor(Rotl(W32(b, p + 8), 5), W32(b, p + 8 + Q.off))) >>
        q == FoldLeft(S, <<KBasis, KBasis, KBasis>>, [k \in 1..Q.count |-> k])
        qr == <<KStep(q[1], Rotl(q[3], 5)), q[2]>>
        sr == IF n >= 16 THEN KTail8(b, 16, KStep(KBasis, WXor(Rotl(W32(b, 0), 5), W32(b, 4))), KStep(KBasis, WXor(Rotl(W32(b, 8), 5), W32(b, 12))))
              ELSE KTail8(b, 0, KBasis, KBasis)
        r == IF n >= 2 * step THEN vr ELSE IF n >= 24 THEN qr ELSE sr
    IN KFinal(r[1], r[2])
=============================================================================
