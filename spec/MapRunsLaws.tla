----------------------------- MODULE MapRunsLaws -----------------------------
(* A map kept twice, as runs and as the function of MapOps: every operation   *)
(* keeps them equal, and what is computed from one equals the other's.        *)
EXTENDS MapRuns

CONSTANT N
Keys == 0..(N - 1)
Ds == {0, 1}
MO == INSTANCE MapOps

VARIABLES R, f
vars == <<R, f>>

Fn(S) == [x \in { k \in Keys : \E r \in S : r[1] <= k /\ k < r[2] } |-> x + (CHOOSE r \in S : r[1] <= x /\ x < r[2])[3]]

Init == R = {} /\ f = MO!EmptyMap
Next == \E a \in Keys, b \in 0..N, d \in Ds :
          LET S == { k \in Keys : a <= k /\ k < b } IN
          \/ R' = InsertNew(R, a, b, d) /\ f' = [x \in DOMAIN f \cup S |-> IF x \in DOMAIN f THEN f[x] ELSE x + d]
          \/ R' = Assign(R, a, b, d)    /\ f' = [x \in DOMAIN f \cup S |-> IF x \in S THEN x + d ELSE f[x]]
          \/ R' = Delete(R, a, b)       /\ f' = MO!Remove(f, S)
Spec == Init /\ [][Next]_vars

Same == Fn(R) = f
Canonical == R = Join(R) /\ \A r \in R, s \in R : r = s \/ r[2] <= s[1] \/ s[2] <= r[1]
Sizes == Size(R) = Cardinality(DOMAIN f)
Parts == \A a \in Keys, b \in 0..N : LET S == { k \in Keys : a <= k /\ k < b } IN
            /\ Fn(Within(R, a, b)) = MO!Restrict(f, S)
            /\ Size(Within(R, a, b)) = Cardinality(S \cap DOMAIN f)
=============================================================================
