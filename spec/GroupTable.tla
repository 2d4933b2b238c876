----------------------------- MODULE GroupTable -----------------------------
(* The algorithm behind group15_flat_map and group16_flat_map: an open       *)
(* addressing table of groups of W slots, probed along triangular numbers,   *)
(* with one overflow mark per group and hash class, an insertion threshold   *)
(* which erasures of marked elements use up, growth by two (or a rehash at   *)
(* the same capacity that drops the marks), a maximum load factor which may  *)
(* change, and tables shrunk for reading only, above that load factor.       *)
(*                                                                           *)
(* What is checked: that this design implements a set of keys (`pres'), that *)
(* an insertion always finds a free slot, that the table grows no further    *)
(* than its contents justify, and that reserve(n) makes room for n elements. *)
(*                                                                           *)
(* The model runs at the real dimensions of the library.  A scenario (a JSON *)
(* record, file named by the environment variable SCN) fixes the hashes: a   *)
(* few mobile keys are inserted and erased in every possible order among     *)
(* ballast keys which fill the groups beforehand; so all states of the last  *)
(* free slots, marks and thresholds are enumerated.  Every transition of the *)
(* state graph is printed (ACTION_CONSTRAINT Emit): tools/walks.py makes     *)
(* walks that cover the graph and replays them in the real code.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, TLCExt, Json, IOUtils

Scn == ndJsonDeserialize(IOEnv.SCN)[1]
Kind == Scn.kind                \* 15 or 16
W == Scn.kind                   \* slots per group
NK == Scn.nk                    \* mobile keys are 1..NK
N == Len(Scn.home)              \* ballast keys are NK+1..N
HM == Scn.hm                    \* home group among HM groups; among G <= HM groups: the leading bits
MLS == { Scn.ml[j] : j \in 1..Len(Scn.ml) }    \* maximum load factors it is changed to, in 1/256
Mobile == 1..NK
Home(k, n) == (Scn.home[k] * n) \div HM
Cls(k) == Scn.cls[k]

VARIABLES g,        \* number of groups (0: no table)
          tab,      \* tab[i][s]: the key in slot s of group i, 0 if empty
          ovf,      \* ovf[i]: the hash classes that overflowed group i
          thr,      \* insertions up to this size need no growth
          ml,       \* maximum load factor in 1/256
          pres,     \* the set of keys a user has put in (the abstract value)
          op        \* the last operation

vars == <<g, tab, ovf, thr, ml, pres, op>>
view == <<g, tab, ovf, thr, ml, pres>>

(* ---- capacities ---- *)
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE Pow2Up(_, _)
Pow2Up(n, p) == IF p >= n THEN p ELSE Pow2Up(n, 2 * p)
MinG == 2
Groups(n) == Pow2Up(n, MinG)                        \* at least n groups
Cap(n) == IF n = 0 THEN 0 ELSE IF Kind = 15 THEN n * 15 - 1 ELSE n * 16
Small == 32
ThrOf(n, z) == IF Cap(n) > Small THEN (Cap(n) * z) \div 256 ELSE Cap(n)
\* groups needed for n elements within the load limit z
FitG(n, z) == IF n = 0 THEN 0
              ELSE IF Kind = 15 THEN CeilDiv(CeilDiv(n * 256, z) + 1, 15)
              ELSE CeilDiv(CeilDiv(n * 256, z), 16)
Usable(i, n) == IF Kind = 15 /\ i = n THEN W - 1 ELSE W     \* the last slot of a group15 table is the sentinel

(* ---- probing ---- *)
At(k, j, n) == 1 + ((Home(k, n) + (j * (j + 1)) \div 2) % n)

RECURSIVE FindAt(_, _, _, _, _)
FindAt(k, j, n, t, o) ==
    IF j = n THEN <<0, 0>>
    ELSE LET i == At(k, j, n) IN
         IF \E s \in 1..W : t[i][s] = k THEN <<i, CHOOSE s \in 1..W : t[i][s] = k>>
         ELSE IF Cls(k) \notin o[i] THEN <<0, 0>>
         ELSE FindAt(k, j + 1, n, t, o)
Find(k, n, t, o) == IF n = 0 THEN <<0, 0>> ELSE FindAt(k, 0, n, t, o)

FreeSlots(i, n, t) == { s \in 1..Usable(i, n) : t[i][s] = 0 }

RECURSIVE PlaceAt(_, _, _, _, _)
PlaceAt(k, j, n, t, o) ==
    LET i == At(k, j, n)  f == FreeSlots(i, n, t) IN
    IF Assert(j < n, <<"no free slot", k>>) /\ f # {}
    THEN [t |-> [t EXCEPT ![i][CHOOSE s \in f : \A u \in f : s <= u] = k], o |-> o, i |-> i]
    ELSE PlaceAt(k, j + 1, n, t, [o EXCEPT ![i] = @ \cup {Cls(k)}])
Place(k, n, t, o) == PlaceAt(k, 0, n, t, o)

EmptyTab(n) == [i \in 1..n |-> [s \in 1..W |-> 0]]
EmptyOvf(n) == [i \in 1..n |-> {}]

RECURSIVE PlaceAll(_, _, _)
PlaceAll(ks, n, x) == IF ks = <<>> THEN x ELSE PlaceAll(Tail(ks), n, LET y == Place(Head(ks), n, x.t, x.o) IN [t |-> y.t, o |-> y.o])

InOrder(t) == SelectSeq(FlattenSeq(t), LAMBDA x : x # 0)
Size(t) == Len(InOrder(t))

Max2(a, b) == IF a > b THEN a ELSE b
\* the table rebuilt with n groups (each element may take one from the threshold again when it is erased)
Rebuilt(n, t, z) == LET x == PlaceAll(InOrder(t), n, [t |-> EmptyTab(n), o |-> EmptyOvf(n)])
                    IN [g |-> n, t |-> x.t, o |-> x.o, thr |-> Max2(ThrOf(n, z), Size(t))]
Gone == [g |-> 0, t |-> <<>>, o |-> <<>>, thr |-> 0]
Same == [g |-> g, t |-> tab, o |-> ovf, thr |-> thr]

Grown(x) ==
    LET sz == Size(x.t)  m == Groups(FitG(sz + sz \div 8 + 1, ml)) IN
    IF x.g # 0 /\ m <= x.g THEN Rebuilt(x.g, x.t, ml)
    ELSE LET n == Groups(IF 2 * x.g > FitG(sz + 1, ml) THEN 2 * x.g ELSE FitG(sz + 1, ml)) IN Rebuilt(n, x.t, ml)

\* insertion of an absent key
Inserted(k, x) ==
    LET y == IF Size(x.t) >= x.thr THEN Grown(x) ELSE x
        p == Place(k, y.g, y.t, y.o)
    IN [g |-> y.g, t |-> p.t, o |-> p.o,
        thr |-> IF Kind = 16 /\ Cls(k) \in p.o[p.i] /\ y.thr < ThrOf(y.g, ml) THEN y.thr + 1 ELSE y.thr]

Put(x) == /\ g' = x.g /\ tab' = x.t /\ ovf' = x.o /\ thr' = x.thr

RECURSIVE InsertAll(_, _)
InsertAll(ks, x) == IF ks = <<>> THEN x ELSE InsertAll(Tail(ks), Inserted(Head(ks), x))

Ballast == [n \in 1..(N - NK) |-> NK + n]

Init == ml = Scn.mlf /\
        LET x == InsertAll(Ballast, IF Scn.rsv0 = 0 THEN Gone ELSE Rebuilt(Groups(FitG(Scn.rsv0, ml)), <<>>, ml)) IN
        /\ g = x.g /\ tab = x.t /\ ovf = x.o /\ thr = x.thr
        /\ pres = { Ballast[n] : n \in 1..(N - NK) }
        /\ op = <<"init", 0>>

Ins(k) ==
    /\ Put(IF Find(k, g, tab, ovf) # <<0, 0>> THEN Same ELSE Inserted(k, Same))
    /\ pres' = pres \cup {k}
    /\ op' = <<"ins", k>>
    /\ UNCHANGED ml

Era(k) ==
    LET p == Find(k, g, tab, ovf) IN
    /\ p # <<0, 0>>
    /\ tab' = [tab EXCEPT ![p[1]][p[2]] = 0]
    /\ thr' = IF Cls(k) \in ovf[p[1]] THEN thr - 1 ELSE thr
    /\ pres' = pres \ {k}
    /\ op' = <<"era", k>>
    /\ UNCHANGED <<g, ovf, ml>>

Rsv(n) ==
    /\ Put(IF n > thr THEN LET m == Groups(FitG(n, ml)) IN Rebuilt(IF m > g THEN m ELSE g, tab, ml) ELSE Same)
    /\ op' = <<"rsv", n>>
    /\ UNCHANGED <<pres, ml>>

Reh(n) ==       \* n buckets (slots and control bytes: 16 per group)
    LET a == CeilDiv(n, 16)  b == FitG(Size(tab), ml)  m == IF a > b THEN a ELSE b IN
    /\ Put(IF m = 0 THEN IF Kind = 15 /\ pres # {} THEN Same ELSE Gone
           ELSE IF Kind = 15 THEN IF Groups(m) > g THEN Rebuilt(Groups(m), tab, ml) ELSE Same
           ELSE IF Groups(m) # g THEN Rebuilt(Groups(m), tab, ml) ELSE Same)
    /\ op' = <<"reh", n>>
    /\ UNCHANGED <<pres, ml>>

Shr ==
    LET m == FitG(Size(tab), ml) IN
    /\ Put(IF m = 0 THEN Gone ELSE IF Groups(m) # g THEN Rebuilt(Groups(m), tab, ml) ELSE Same)
    /\ op' = <<"shr", 0>>
    /\ UNCHANGED <<pres, ml>>

\* shrunk for reading only: the fewest groups that hold the elements, whatever the load limit
Sro ==
    LET c == Size(tab)  m == IF Kind = 15 THEN CeilDiv(c + 1, 15) ELSE CeilDiv(c, 16) IN
    /\ Put(IF c = 0 THEN Gone ELSE IF Groups(m) # g THEN Rebuilt(Groups(m), tab, ml) ELSE Same)
    /\ op' = <<"sro", 0>>
    /\ UNCHANGED <<pres, ml>>

\* the load limit becomes z: the table grows if its contents demand it, else what erasures took from the threshold stays lost,
\* but every element may take one away once more
Mlf(z) ==
    LET m == Groups(FitG(Size(tab), z))  lost == Max2(ThrOf(g, ml) - thr, 0)  nt == ThrOf(g, z) - lost IN
    /\ ml' = z
    /\ Put(IF g = 0 THEN Same ELSE IF m > g THEN Rebuilt(m, tab, z)
           ELSE [Same EXCEPT !.thr = Max2(nt, Size(tab))])
    /\ op' = <<"mlf", z>>
    /\ UNCHANGED pres

Next == \/ \E k \in Mobile : Ins(k) \/ Era(k)
        \/ \E n \in { Scn.rsv[j] : j \in 1..Len(Scn.rsv) } : Rsv(n)
        \/ \E n \in { Scn.reh[j] : j \in 1..Len(Scn.reh) } : Reh(n)
        \/ (Scn.shr = 1 /\ Shr)
        \/ (Scn.sro = 1 /\ Sro)
        \/ \E z \in MLS : Mlf(z)

Spec == Init /\ [][Next]_vars

(* ---- what the design guarantees ---- *)
Keys == 1..N
Stored == { x \in Keys : \E i \in 1..g : \E s \in 1..W : tab[i][s] = x }

\* a lookup finds exactly the keys that were put in
Lookup == \A k \in Keys : (Find(k, g, tab, ovf) # <<0, 0>>) <=> k \in pres
Represents == Stored = pres /\ Size(tab) = Cardinality(pres)
\* the load limit is kept, and the erasure of all elements does not wrap the threshold around
\* (only a table shrunk for reading, or filled before the limit was lowered, may be above it)
Threshold == /\ thr >= Cardinality(pres)
             /\ thr <= IF Scn.sro = 0 THEN ThrOf(g, ml) ELSE Cap(g)
             /\ Cardinality(pres) <= Cap(g)
\* the last slot of a group15 table is never used: it is the end mark
Sentinel == Kind = 15 /\ g > 0 => tab[g][W] = 0
\* insertions and erasures do not make the table larger than 1/8 more elements would
MinML == LET S == {Scn.mlf} \cup MLS IN CHOOSE z \in S : \A y \in S : z <= y
Bound == g <= LET S == { Groups(FitG(n, MinML)) : n \in {N + N \div 8 + 1, Scn.rsv0} \cup { Scn.rsv[j] : j \in 1..Len(Scn.rsv) } }
                       \cup { Groups(CeilDiv(Scn.reh[j], 16)) : j \in 1..Len(Scn.reh) }
              IN CHOOSE x \in S : \A y \in S : x >= y
Reserved == [][ op'[1] = "rsv" => thr' >= op'[2] ]_vars
\* an insertion rebuilds only a table that reached its threshold, and enlarges it only when the elements demand it
Lazy == [][ op'[1] = "ins" /\ g' # g => Cardinality(pres) >= thr /\ FitG(Cardinality(pres) + Cardinality(pres) \div 8 + 1, ml) > g ]_vars

Limit == TLCGet("distinct") < Scn.lim
Emit == PrintT(<<"E", TLCFP(view), op'[1], op'[2], TLCFP(view'), g'>>)
InitEmit == op[1] = "init" => PrintT(<<"I", TLCFP(view), g>>)
=============================================================================
