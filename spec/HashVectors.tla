----------------------------- MODULE HashVectors -----------------------------
(* Published test vectors and algebraic laws of Hashes, checked by TLC.       *)
EXTENDS Hashes, TLC

Digits == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>                    \* "123456789"
\* CRC-32C check value; RFC 3720 B.4: 32 bytes of zeros and of ones, incrementing bytes
ASSUME CrcTable[129] = CrcPoly
ASSUME Crc32C(Digits) = C32(58118, 37507)                             \* 0xE3069283
ASSUME Crc32C([j \in 1..32 |-> 0]) = C32(35473, 13994)                \* 0x8A9136AA
ASSUME Crc32C([j \in 1..32 |-> 255]) = C32(25256, 43843)              \* 0x62A8AB43
ASSUME Crc32C([j \in 1..32 |-> j - 1]) = C32(18141, 31054)            \* 0x46DD794E
\* FNV-1a 64: "", "a", "foobar"
ASSUME Fnv1a64(FnvBytes(<<>>)) = FnvBasis64
ASSUME Fnv1a64(FnvBytes(<<97>>)) = <<60556, 34305, 56396, 44899>>    \* 0xaf63dc4c8601ec8c
ASSUME Fnv1a64(FnvBytes(<<102, 111, 111, 98, 97, 114>>)) = <<26600, 63289, 16753, 34196>>   \* 0x85944171f73967e8
\* Java: "hello".hashCode() = 99162322; "" = 0
ASSUME Times31(<<104, 101, 108, 108, 111>>) = C32(1513, 6354)
\* djb2 of "hello": 261238937
ASSUME DJB(<<104, 101, 108, 108, 111>>) = C32(3986, 12441)
\* products
ASSUME MulFull(<<65535, 65535, 65535, 65535>>, <<65535, 65535, 65535, 65535>>) = <<1, 0, 0, 0, 65534, 65535, 65535, 65535>>
ASSUME Mul(<<65535, 65535>>, <<65535, 65535>>) = <<1, 0>>
ASSUME FnvMul64(<<1, 0, 0, 0>>) = <<435, 0, 256, 0>>

\* the CRC is linear: crc(a xor b) xor crc(0) = crc(a) xor crc(b); it changes with every bit
ASSUME \A p, q \in {0, 1, 2, 128, 255} : \A r \in {0, 77, 255} :
          LET a == <<p, q, r, 3, q>>  b == <<r, 1, p, q, 200>>  z == <<0, 0, 0, 0, 0>> IN
          WXor(Crc32C([j \in 1..5 |-> a[j] ^^ b[j]]), Crc32C(z)) = WXor(Crc32C(a), Crc32C(b))

\* laws, on pairs of words
VARIABLES u, cnt
Limbs == <<0, 1, 2, 255, 256, 32768, 40503, 65535>>
Init == cnt = 0 /\ u \in { <<Limbs[p], Limbs[q]>> : p \in 1..8, q \in 1..8 }
Next == cnt < 64 /\ cnt' = cnt + 1 /\ UNCHANGED u
Spec == Init /\ [][Next]_<<u, cnt>>
v == <<Limbs[1 + (cnt % 8)], Limbs[1 + ((cnt \div 8) % 8)]>>
Laws == /\ MulFull(u, v) = MulFull(v, u)
        /\ Mul(u, v) = Lo(MulFull(u, v), 2)
        /\ Add(u, v) = Add(v, u)
        /\ Add(WXor(u, v), MulSmall(WAnd(u, v), 2)) = Add(u, v)
        /\ Add(u, Add(WNot(u), Word(2, 1))) = Zero(2)
        /\ Mul(u, Add(v, Word(2, 1))) = Add(Mul(u, v), u)
        /\ \A s \in {0, 1, 5, 15, 16, 17, 31} : /\ Shr(u, s) = Lo(Shr(Ext(u, 4), s), 2)
                                               /\ Add(Shl(Shr(u, s), s), Shr(Shl(u, 32 - s), 32 - s)) = u
        /\ \A s \in {1, 5, 15, 16, 17, 31} : Rotl(Rotl(u, s), 32 - s) = u
        \* a polynomial hash of a concatenation
        /\ LET a == ToBytes(u)  b == ToBytes(v) IN Times31(a \o b) = Add(Mul(Times31(a), Word(2, 923521)), Times31(b))
=============================================================================
