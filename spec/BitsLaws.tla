------------------------------ MODULE BitsLaws ------------------------------
(* Bits against arithmetic, for every operand of W bits.                      *)
EXTENDS Bits
CONSTANT W

VARIABLE n
Init == n = 0
Next == n < 2^W - 1 /\ n' = n + 1
Spec == Init /\ [][Next]_n

RECURSIVE Val(_)
Val(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN 2^t + Val(S \ {t})
S == { k \in 0..(W - 1) : (n \div 2^k) % 2 = 1 }
Powers == { 2^k : k \in 0..(W - 1) }
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
Max(X) == CHOOSE x \in X : \A y \in X : x >= y
Sat(X) == IF X = {} THEN 2^W - 1 ELSE Min(X)

Repr   == Val(S) = n
Laws   ==
    /\ IsPow2(S) <=> n \in Powers
    /\ Val(RoundUp(S, W)) = (IF n = 0 THEN 0 ELSE Sat({ p \in Powers : p >= n }))
    /\ Val(NextPow2(S, W)) = Sat({ p \in Powers : p > n })
    /\ Val(RoundTo(S)) = (IF n = 0 THEN 0 ELSE Max({ p \in Powers : p <= n }))
    /\ Val(RoundDown(S)) = (IF n <= 1 THEN 0 ELSE Max({ p \in Powers : p < n }))
    /\ Val(PrevPow2(S)) = (IF n <= 1 THEN 0 ELSE Max({ p \in Powers : p <= n }) \div 2)
    /\ Ctz(S, W) = (IF n = 0 THEN W ELSE Max({ k \in 0..(W - 1) : n % 2^k = 0 }))
    /\ Clz(S, W) = (IF n = 0 THEN W ELSE Min({ k \in 0..(W - 1) : n * 2^(k + 1) >= 2^W }))
    /\ (n > 0 => 2^(Log2Int(S)) >= n /\ (Log2Int(S) = 0 \/ 2^(Log2Int(S) - 1) < n))
    /\ Val(Ls1b(S)) + Val(ClearLow(S)) = n
    /\ Popcnt(S) = (IF n = 0 THEN 0 ELSE 1 + Cardinality(ClearLow(S)))
=============================================================================
