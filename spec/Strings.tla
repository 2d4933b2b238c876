------------------------------- MODULE Strings -------------------------------
(* Character sequences: a character is a natural number (its unsigned code),  *)
(* a string is a sequence of characters of any length, with any content.      *)
EXTENDS Integers, Sequences, FiniteSets

MinN(a, b) == IF a <= b THEN a ELSE b

\* The length of the longest common prefix.
RECURSIVE LcpFrom(_, _, _)
LcpFrom(a, b, k) == IF k <= Len(a) /\ k <= Len(b) /\ a[k] = b[k] THEN LcpFrom(a, b, k + 1) ELSE k - 1
Lcp(a, b) == LcpFrom(a, b, 1)

\* Three-way lexicographic comparison: -1, 0 or 1.
Cmp(a, b) ==
    LET l == Lcp(a, b) IN
    IF l = Len(a) /\ l = Len(b) THEN 0
    ELSE IF l = Len(a) THEN -1
    ELSE IF l = Len(b) THEN 1
    ELSE IF a[l + 1] < b[l + 1] THEN -1 ELSE 1

Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

\* Characters pos, pos+1, ... (0-based), at most cnt of them.  Undefined (an
\* exception) when pos is beyond the end.  cnt = -1 stands for "no limit".
InRange(s, pos) == pos >= 0 /\ pos <= Len(s)
Sub(s, pos, cnt) == IF cnt < 0 \/ cnt >= Len(s) - pos THEN SubSeq(s, pos + 1, Len(s)) ELSE SubSeq(s, pos + 1, pos + cnt)

\* A C string ends before its first NUL.
RECURSIVE CLenFrom(_, _)
CLenFrom(s, k) == IF k > Len(s) \/ s[k] = 0 THEN k - 1 ELSE CLenFrom(s, k + 1)
CStr(s) == SubSeq(s, 1, CLenFrom(s, 1))

Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
==============================================================================
