------------------------------- MODULE MapOps -------------------------------
(* Pure operators on the abstract value of a hash map: a partial function    *)
(* from keys to values.  They are shared by the abstract specification       *)
(* (HashMap), by the conformance specification that judges executions of     *)
(* the real code (HashMapTrace) and by the structural specifications         *)
(* (GroupTable, RobinTable), which refine HashMap.                           *)
EXTENDS Integers, Sequences, FiniteSets

EmptyMap == [x \in {} |-> 0]

Has(f, k) == k \in DOMAIN f

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* insert / emplace / try_emplace: an existing element is never overwritten.
PutNew(f, k, v) == IF k \in DOMAIN f THEN f ELSE Put(f, k, v)

Remove(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]

Restrict(f, ks) == [x \in DOMAIN f \cap ks |-> f[x]]

\* A range insertion inserts the elements in order; the first one of equal keys wins.
PutAllNew(f, ks, vs, n) ==
    [x \in DOMAIN f \cup { ks[j] : j \in 1..n } |->
        IF x \in DOMAIN f THEN f[x]
        ELSE vs[CHOOSE j \in 1..n : ks[j] = x /\ \A h \in 1..(j - 1) : ks[h] # x]]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

SeqRange(s) == { s[j] : j \in 1..Len(s) }
NoDup(s) == Cardinality(SeqRange(s)) = Len(s)

\* keys a, a+s, a+2s ... below b
Progression(a, b, s) == { k \in a..(b - 1) : (k - a) % s = 0 }
=============================================================================
