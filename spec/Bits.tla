-------------------------------- MODULE Bits --------------------------------
(* Unsigned machine words of width W as the finite sets of their one bits.    *)
(* The rounding, logarithm and bit-scan functions of Power2.h and BitUtils.h  *)
(* are statements about such sets; BitsLaws checks these definitions against  *)
(* arithmetic on natural numbers.                                             *)
EXTENDS Integers, FiniteSets

AllOnes(W) == 0..(W - 1)
Top(S) == CHOOSE x \in S : \A y \in S : y <= x
Low(S) == CHOOSE x \in S : \A y \in S : y >= x
IsPow2(S) == Cardinality(S) = 1

\* floor and ceiling of the base two logarithm (S not empty)
FloorLog2(S) == Top(S)
CeilLog2(S)  == IF IsPow2(S) THEN Top(S) ELSE Top(S) + 1

\* the smallest power of two >= S; all ones when it is not representable
RoundUp(S, W)  == IF S = {} THEN {} ELSE IF CeilLog2(S) < W THEN {CeilLog2(S)} ELSE AllOnes(W)
\* the smallest power of two > S
NextPow2(S, W) == IF S = {} THEN {0} ELSE IF Top(S) + 1 < W THEN {Top(S) + 1} ELSE AllOnes(W)
\* the largest power of two <= S
RoundTo(S)     == IF S = {} THEN {} ELSE {Top(S)}
\* the largest power of two < S
RoundDown(S)   == IF S = {} \/ S = {0} THEN {} ELSE IF IsPow2(S) THEN {Top(S) - 1} ELSE {Top(S)}
\* half of the largest power of two <= S
PrevPow2(S)    == IF S = {} \/ S = {0} THEN {} ELSE {Top(S) - 1}

Popcnt(S)      == Cardinality(S)
Ctz(S, W)      == IF S = {} THEN W ELSE Low(S)
Clz(S, W)      == IF S = {} THEN W ELSE W - 1 - Top(S)
Ls1b(S)        == IF S = {} THEN {} ELSE {Low(S)}
Ms1b(S)        == IF S = {} THEN {} ELSE {Top(S)}
ClearLow(S)    == IF S = {} THEN {} ELSE S \ {Low(S)}
Log2Int(S)     == IF S = {} THEN 0 ELSE CeilLog2(S)
=============================================================================
