------------------------------- MODULE MapRuns -------------------------------
(* Large maps over number keys, represented by runs: <<a, b, d>> stands for   *)
(* the elements x |-> x + d of a <= x < b.  A map is a set of disjoint runs   *)
(* that cannot be joined, so that equal maps have equal sets of runs.         *)
(* MapRunsLaws checks these operators against those of MapOps.                *)
EXTENDS Integers, FiniteSets, SequencesExt

Len3(r) == r[2] - r[1]
Size(R) == FoldSet(LAMBDA r, n: n + Len3(r), 0, R)

\* what remains of a run without [a, b)
Pieces(r, a, b) ==
    IF b <= r[1] \/ r[2] <= a THEN {r}
    ELSE (IF r[1] < a THEN {<<r[1], a, r[3]>>} ELSE {}) \cup (IF b < r[2] THEN {<<b, r[2], r[3]>>} ELSE {})
Cut(R, a, b) == IF a >= b THEN R ELSE UNION { Pieces(r, a, b) : r \in R }

\* joined runs
Sorted(R) == SetToSortSeq(R, LAMBDA r, s: r[1] < s[1])
JoinOne(q, r) == IF q # <<>> /\ q[Len(q)][2] = r[1] /\ q[Len(q)][3] = r[3] THEN SubSeq(q, 1, Len(q) - 1) \o << <<q[Len(q)][1], r[2], r[3]>> >> ELSE Append(q, r)
Join(R) == LET q == FoldLeft(JoinOne, <<>>, Sorted(R)) IN { q[k] : k \in DOMAIN q }

\* [a, b) without the keys of R
Gaps(R, a, b, d) == IF a >= b THEN {} ELSE FoldSet(LAMBDA r, G: Cut(G, r[1], r[2]), {<<a, b, d>>}, R)

InsertNew(R, a, b, d) == Join(R \cup Gaps(R, a, b, d))
Assign(R, a, b, d) == IF a >= b THEN R ELSE Join(Cut(R, a, b) \cup {<<a, b, d>>})
Delete(R, a, b) == Cut(R, a, b)
\* the part of R in [a, b)
Within(R, a, b) == { <<IF r[1] < a THEN a ELSE r[1], IF b < r[2] THEN b ELSE r[2], r[3]>> : r \in { s \in R : s[1] < b /\ a < s[2] /\ a < b } }
=============================================================================
