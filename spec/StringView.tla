----------------------------- MODULE StringView -----------------------------
(* The string view type: registers hold views, a view denotes a character     *)
(* sequence.  Views are values: no operation on one view changes another, and *)
(* none changes the characters a view denotes, except writing through it      *)
(* (Append), which only its own buffer sees.                                  *)
EXTENDS Strings

CONSTANTS Chars, MaxLen, Regs

Words == UNION { [1..n -> Chars] : n \in 0..MaxLen }

VARIABLE view
vars == <<view>>

Init == view = [r \in Regs |-> <<>>]

New(r, s)       == view' = [view EXCEPT ![r] = s]
NewC(r, s)      == view' = [view EXCEPT ![r] = CStr(s)]
Copy(r, q)      == view' = [view EXCEPT ![r] = view[q]]
Substr(r, q, pos, cnt) == InRange(view[q], pos) /\ view' = [view EXCEPT ![r] = Sub(view[q], pos, cnt)]
Swap(r, q)      == view' = [view EXCEPT ![r] = view[q], ![q] = view[r]]
Clear(r)        == view' = [view EXCEPT ![r] = <<>>]
AppendTo(r, s)    == Len(view[r]) + Len(s) <= MaxLen /\ view' = [view EXCEPT ![r] = view[r] \o s]

Next == \E r \in Regs :
          \/ \E s \in Words : New(r, s) \/ NewC(r, s) \/ AppendTo(r, s)
          \/ \E q \in Regs : Copy(r, q) \/ Swap(r, q)
          \/ \E q \in Regs, pos \in 0..MaxLen, cnt \in -1..(MaxLen + 1) : Substr(r, q, pos, cnt)
          \/ Clear(r)

Spec == Init /\ [][Next]_vars

TypeOK == view \in [Regs -> Words]

\* ---- what the comparison has to satisfy, for any views that can arise ----
Total         == \A r, q \in Regs : Cmp(view[r], view[q]) = -Cmp(view[q], view[r])
EqConsistent  == \A r, q \in Regs : (Cmp(view[r], view[q]) = 0) <=> (view[r] = view[q])
Transitive    == \A p, q, r \in Regs : Cmp(view[p], view[q]) <= 0 /\ Cmp(view[q], view[r]) <= 0 => Cmp(view[p], view[r]) <= 0
PrefixFirst   == \A r \in Regs, n \in 0..MaxLen : n <= Len(view[r]) => Cmp(Sub(view[r], 0, n), view[r]) = (IF n = Len(view[r]) THEN 0 ELSE -1)
SubSplit      == \A r \in Regs, n \in 0..MaxLen : n <= Len(view[r]) => Sub(view[r], 0, n) \o Sub(view[r], n, -1) = view[r]
SubSub        == \A r \in Regs, a, b \in 0..MaxLen : a + b <= Len(view[r]) => Sub(Sub(view[r], a, -1), b, -1) = Sub(view[r], a + b, -1)
AppendGrows   == [][\A r \in Regs, s \in Words : (s # <<>> /\ AppendTo(r, s)) => Cmp(view[r], view'[r]) = -1]_vars
Isolation     == [][Cardinality({ r \in Regs : view'[r] # view[r] }) <= 2]_vars
=============================================================================
