----------------------------- MODULE RobinTable -----------------------------
(* The algorithm behind robin_hash_map: linear probing where an element with *)
(* a larger distance from its home displaces one with a smaller distance,    *)
(* distances are bounded (max_lookups), the array is extended by that bound  *)
(* instead of wrapping around, erasures shift the followers back, and a      *)
(* table grows when it is at its load limit or when a distance would exceed  *)
(* the bound - also while it is being rebuilt.                               *)
(*                                                                           *)
(* Scenarios (environment variable SCN) and output: see GroupTable.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Scn == ndJsonDeserialize(IOEnv.SCN)[1]
NK == Scn.nk                    \* mobile keys are 1..NK
N == Len(Scn.home)              \* ballast keys are NK+1..N
MLF == Scn.mlf
Mobile == 1..NK
Home(k, n) == Scn.home[k] % n   \* capacities are powers of two: the low bits of the hash

VARIABLES c,        \* capacity (0: no table)
          cell,     \* cell[p], p in 1..c + Reach(c): the key at position p - 1, 0 if empty
          pres, op
vars == <<c, cell, pres, op>>
view == <<c, cell, pres>>

RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Pow2Up(_, _)
Pow2Up(n, p) == IF p >= n THEN p ELSE Pow2Up(n, 2 * p)
CapFor(n) == Pow2Up(n, 4)
Reach(n) == IF n = 0 THEN 0 ELSE LET a == 2 * Log2(n) IN IF a < 4 THEN 4 ELSE a
Thr(n) == (n * MLF) \div 256
Fit(n) == CapFor((n * 256 + MLF - 1) \div MLF)

NoCells(n) == [p \in 1..(n + Reach(n)) |-> 0]
Dist(k, p, n) == p - 1 - Home(k, n)
InOrder(t) == SelectSeq(t, LAMBDA x : x # 0)
Size(t) == Len(InOrder(t))

(* ---- lookup: stops at the first position where the key would have displaced the element ---- *)
RECURSIVE Stop(_, _, _, _)
Stop(k, j, n, t) ==
    LET p == Home(k, n) + 1 + j IN
    IF p > Len(t) \/ t[p] = 0 THEN j
    ELSE IF Dist(t[p], p, n) < j THEN j
    ELSE Stop(k, j + 1, n, t)
RECURSIVE FindAt(_, _, _, _)
FindAt(k, j, n, t) ==
    LET p == Home(k, n) + 1 + j IN
    IF p > Len(t) \/ t[p] = 0 THEN 0
    ELSE IF Dist(t[p], p, n) < j THEN 0
    ELSE IF t[p] = k THEN p
    ELSE FindAt(k, j + 1, n, t)
Find(k, n, t) == IF n = 0 THEN 0 ELSE FindAt(k, 0, n, t)

(* ---- displacement; 0 in .ok when an element would be moved out of reach ---- *)
RECURSIVE Shift(_, _, _, _)
Shift(x, p, n, t) ==            \* x has to go to position p or behind it
    IF p > Len(t) \/ p - 1 - Home(x, n) >= Reach(n) THEN [ok |-> 0, t |-> t]
    ELSE IF t[p] = 0 THEN [ok |-> 1, t |-> [t EXCEPT ![p] = x]]
    ELSE IF Dist(x, p, n) > Dist(t[p], p, n) THEN Shift(t[p], p + 1, n, [t EXCEPT ![p] = x])
    ELSE Shift(x, p + 1, n, t)

Try(k, n, t) ==
    LET j == Stop(k, 0, n, t) IN
    IF j >= Reach(n) THEN [ok |-> 0, t |-> t]
    ELSE LET s == Shift(k, Home(k, n) + 1 + j, n, t) IN IF s.ok = 1 THEN s ELSE [ok |-> 0, t |-> t]

(* ---- rebuilding; a rebuild that exceeds the reach doubles once more ---- *)
RECURSIVE Rebuild(_, _), Add(_, _)
Add(ks, x) ==
    IF ks = <<>> THEN x
    ELSE LET s == Try(Head(ks), x.c, x.t) IN
         IF s.ok = 1 THEN Add(Tail(ks), [c |-> x.c, t |-> s.t])
         ELSE Add(ks, Rebuild(2 * x.c, x.t))
Rebuild(n, t) == Add(InOrder(t), [c |-> n, t |-> NoCells(n)])

Bigger(x) == Rebuild(CapFor(2 * (IF x.c = 0 THEN 1 ELSE x.c)), x.t)

\* insertion of an absent key: growth is repeated until the key is in reach
RECURSIVE Inserted(_, _)
RECURSIVE GrowUntil(_, _)
GrowUntil(k, x) == LET y == Bigger(x) IN IF Stop(k, 0, y.c, y.t) >= Reach(y.c) THEN GrowUntil(k, y) ELSE y
Inserted(k, x) ==
    LET y == IF x.c = 0 THEN GrowUntil(k, x)
             ELSE IF Size(x.t) >= Thr(x.c) \/ Stop(k, 0, x.c, x.t) >= Reach(x.c) THEN GrowUntil(k, x) ELSE x
        s == Shift(k, Home(k, y.c) + 1 + Stop(k, 0, y.c, y.t), y.c, y.t)
    IN IF s.ok = 1 THEN [c |-> y.c, t |-> s.t] ELSE Inserted(k, Bigger(y))

Same == [c |-> c, t |-> cell]
Put(x) == c' = x.c /\ cell' = x.t

RECURSIVE InsertAll(_, _)
InsertAll(ks, x) == IF ks = <<>> THEN x ELSE InsertAll(Tail(ks), Inserted(Head(ks), x))
Ballast == [n \in 1..(N - NK) |-> NK + n]

Init == LET n == CapFor(Scn.cap0)
            x == InsertAll(Ballast, IF Scn.cap0 = 0 THEN [c |-> 0, t |-> <<>>] ELSE [c |-> n, t |-> NoCells(n)]) IN
        /\ c = x.c /\ cell = x.t
        /\ pres = { Ballast[n2] : n2 \in 1..(N - NK) }
        /\ op = <<"init", 0>>

Ins(k) ==
    /\ Put(IF Find(k, c, cell) # 0 THEN Same ELSE Inserted(k, Same))
    /\ pres' = pres \cup {k}
    /\ op' = <<"ins", k>>

RECURSIVE Close(_, _, _)
Close(p, n, t) ==               \* the gap at p is filled by the followers that are not at home
    IF p + 1 > Len(t) THEN [t EXCEPT ![p] = 0]
    ELSE IF t[p + 1] = 0 THEN [t EXCEPT ![p] = 0]
    ELSE IF Dist(t[p + 1], p + 1, n) = 0 THEN [t EXCEPT ![p] = 0]
    ELSE Close(p + 1, n, [t EXCEPT ![p] = t[p + 1]])

Era(k) ==
    LET p == Find(k, c, cell) IN
    /\ p # 0
    /\ cell' = Close(p, c, cell)
    /\ pres' = pres \ {k}
    /\ op' = <<"era", k>>
    /\ UNCHANGED c

Resize(n) == IF CapFor(n) # c THEN Rebuild(CapFor(n), cell) ELSE Same
Req(n) == LET m == IF n > Cardinality(pres) THEN n ELSE Cardinality(pres) IN (m * 256 + MLF - 1) \div MLF
Rsv(n) == Put(Resize(Req(n))) /\ op' = <<"rsv", n>> /\ UNCHANGED pres
Reh(n) == Put(Resize(Req(n))) /\ op' = <<"reh", n>> /\ UNCHANGED pres
Shr == Put(Resize(Req(0))) /\ op' = <<"shr", 0>> /\ UNCHANGED pres

Next == \/ \E k \in Mobile : Ins(k) \/ Era(k)
        \/ \E n \in { Scn.rsv[j] : j \in 1..Len(Scn.rsv) } : Rsv(n)
        \/ \E n \in { Scn.reh[j] : j \in 1..Len(Scn.reh) } : Reh(n)
        \/ (Scn.shr = 1 /\ Shr)
Spec == Init /\ [][Next]_vars

(* ---- what the design guarantees ---- *)
Keys == 1..N
Lookup == \A k \in Keys : (Find(k, c, cell) # 0) <=> k \in pres
Represents == { x \in Keys : \E p \in 1..Len(cell) : cell[p] = x } = pres /\ Size(cell) = Cardinality(pres)
\* nobody is out of reach or behind a gap, and the elements stand in the order of their homes
InReach == \A p \in 1..Len(cell) : cell[p] # 0 =>
              /\ Dist(cell[p], p, c) \in 0..(Reach(c) - 1)
              /\ \A q \in (Home(cell[p], c) + 1)..p : cell[q] # 0
Ordered == \A p \in 1..(Len(cell) - 1) : cell[p] # 0 /\ cell[p + 1] # 0 => Home(cell[p], c) <= Home(cell[p + 1], c)
Limit == TLCGet("distinct") < Scn.lim
Loaded == [][ op'[1] = "ins" => Cardinality(pres') <= Thr(c') \/ pres' = pres ]_vars
\* growth needs a reason: the load limit, or as many elements as a chain out of reach takes
Lazy == [][ op'[1] = "ins" /\ c' # c => Cardinality(pres) >= Thr(c) \/ Cardinality(pres) + 2 >= Reach(c) ]_vars
Reserved == [][ op'[1] = "rsv" => Thr(c') >= op'[2] ]_vars

Emit == PrintT(<<"E", TLCFP(view), op'[1], op'[2], TLCFP(view'), c'>>)
InitEmit == op[1] = "init" => PrintT(<<"I", TLCFP(view), c>>)
=============================================================================
