---------------------------- MODULE HashMapTrace ----------------------------
(* Conformance of recorded executions of the real maps to the abstract map   *)
(* (HashMap / MapOps).  A trace is a sequence of events, one per operation    *)
(* executed by harness/mt.hpp; each event has the operation's arguments, its  *)
(* results and a projection of the state observable after it.  The           *)
(* specification computes what the event has to look like from the abstract  *)
(* state and collects every clause that does not hold, tagged with the       *)
(* properties it belongs to.                                                 *)
(*                                                                           *)
(* The environment variable TRACES names a file with one JSON array per      *)
(* line; FOCUS the property being decided ("ALL" for any).                   *)
EXTENDS MapOps, SequencesExt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Focus == IOEnv.FOCUS

Ids == 0..3
NA == -99999     \* not measured in this configuration

VARIABLES tid, i, O, bad
vars == <<tid, i, O, bad>>

(* ---- per-object abstract state ----                                        *)
(*  al  alive         kv  the value          ht  functor state (tag)          *)
(*  ml  max load factor in 1/1000 (-1: not known yet)   at  allocator identity*)
(*  rs  reserve promise: up to rs elements without a rehash (0: none)         *)
(*  bc  last observed bucket count (-1: unknown)                              *)
(*  st  addresses of elements that must still be valid                        *)
(*  kg  which object each key was made from, as last seen                     *)
(*  sus properties whose operations contributed to this object                *)
(*  fz  value unknown until the next dump (after a throwing list assignment)  *)
(*  ro  the load limit is suspended (read_only rebuilds)                       *)
(*  er  elements erased since the last rehash (Lots: not known)               *)
Lots == 1000000
Dead == [al |-> FALSE, kv |-> EmptyMap, ht |-> 0, ml |-> -1, at |-> -1, rs |-> 0, bc |-> -1,
         st |-> EmptyMap, kg |-> EmptyMap, sus |-> {}, fz |-> FALSE, ro |-> FALSE, er |-> 0]

Fresh(kv, ht, at, sus) ==
    [Dead EXCEPT !.al = TRUE, !.kv = kv, !.ht = ht, !.at = at, !.sus = sus]

(* ---- clause bookkeeping ---- *)
F(props, name, ok) == IF ok THEN {} ELSE { <<p, name>> : p \in props }

OpProps(op) ==
    CASE op \in {"ins", "idx", "idxs", "insr", "insil", "insm", "newr", "newil", "newrc", "newm"} -> {"C01", "C02"}
      [] op \in {"cpy", "cpya", "mov", "mova", "casg", "masg", "ilasg", "swp"} -> {"C01", "C05"}
      [] op \in {"erai", "erar", "erif", "erall", "eraks"} -> {"C01", "C12"}
      [] op \in {"rsv", "reh", "shr"} -> {"C01", "C04"}
      [] op = "hug" -> {"C04", "C08"}
      [] op = "mlf" -> {"C01", "C04", "C11"}
      [] op \in {"dump", "cdump", "iter"} -> {"C01", "C03"}
      [] OTHER -> {"C01"}

\* properties that stay attached to an object because their operations shaped it
Sticky(e) ==
    (CASE e.op \in {"cpy", "cpya", "mov", "mova", "casg", "masg", "ilasg", "swp"} -> {"C05"}
       [] e.op \in {"erai", "erar", "erif", "erall", "eraks"} -> {"C12"}
       [] e.op \in {"rsv", "reh", "shr", "mlf"} -> {"C04"}
       [] e.op \in {"ins", "idx", "idxs", "insr", "insil", "insm", "newr", "newil", "newrc", "newm"} -> {"C02"}
       [] OTHER -> {})
    \cup (IF e.th = 1 /\ e.op # "hug" THEN {"C08"} ELSE {})

(* ---- classification of the insertion forms ---- *)
AssignForms == {"ac", "al", "ah", "ar", "ahr", "ax", "akx", "ahx", "ali", "alr"}
LvalueForms == {"cl", "ll", "pl", "pc", "hcl", "ekv", "ekc", "epl", "epc", "epw", "eh", "tc", "tl", "th", "ac", "al", "ah", "akx", "ali", "tm", "epm", "ekm"}
TryForms    == {"tr", "thr", "tc", "tl", "th", "tm", "tmr"}

InsertOps == {"ins", "idx", "idxs", "insr", "insil", "insm", "bins"}
LookupOps == {"find", "cfind", "has", "at", "cat", "set", "obs", "dump", "cdump", "bfind", "iter"}
EraseOps  == {"era", "erai", "erar", "erif", "erall", "bera", "eraks"}

HasInj(e) == "inj" \in DOMAIN e

Tp(t) == IF Traces[t][1].tp = "" THEN {} ELSE {Traces[t][1].tp}
Cfg(t) == Traces[t][1]

Clamp(c, lo, hi) == IF c < lo THEN lo ELSE IF c > hi THEN hi ELSE c

(* ---- the effect of one event ----                                          *)
(* Each branch yields the abstract state after the event and the failed       *)
(* clauses that are particular to the operation.                              *)
R(o2, b) == [O |-> o2, bad |-> b]

\* prefix of a sequential insertion that was left by an exception: the observed size tells which
PrefixNew(kv, ks, vs, sz) ==
    LET js == { j \in 0..Len(ks) : Cardinality(DOMAIN PutAllNew(kv, ks, vs, j)) = sz }
    IN IF js = {} THEN kv ELSE PutAllNew(kv, ks, vs, CHOOSE j \in js : TRUE)

BulkNew(kv, ks, d) == [x \in DOMAIN kv \cup ks |-> IF x \in DOMAIN kv THEN kv[x] ELSE x + d]
BulkAssign(kv, ks, d) == [x \in DOMAIN kv \cup ks |-> IF x \in ks THEN x + d ELSE kv[x]]

\* the table was rebuilt: its size changed, or (counting allocators) it asked for memory
Rehashed(was, e) == was.bc # -1 /\ (e.bc # was.bc \/ (e.na # NA /\ e.na > 0))

RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)

\* Linear probing without wraparound fills the same places in whatever order the keys come, and taking
\* the elements by their home gives the distances of robin hood hashing.  Homes are the keys modulo the
\* number of buckets (events with the field "ih").
MaxDistance(S, bc) ==
    LET s == SetToSortSeq(S, LAMBDA x, y : (x % bc) < (y % bc) \/ ((x % bc) = (y % bc) /\ x < y))
        \* a[1]: the first free place, a[2]: the largest distance
        step(a, x) == LET p == Max(a[1], x % bc) IN <<p + 1, Max(a[2], p - (x % bc))>>
    IN FoldLeft(step, <<0, 0>>, s)[2]
MaxLookups(bc) == IF Log2(bc) < 16 THEN Max(2 * Log2(bc), 4) ELSE Min(4 * Log2(bc), 128)

\* An insertion may rebuild the table only when it has to: the elements, plus what erasures since the
\* last rebuild may have used up, reach the load limit; a robin table may also do so when a probe
\* distance of 2 log2(buckets) is reached.  It may grow only when the elements themselves (with 1/8 to
\* spare) exceed the load limit.
CapOf(bc, ml) == IF bc <= 32 THEN bc ELSE (bc * ml) \div 1000
NeedlessRehash(was, e, t) ==
    LET n == Cardinality(DOMAIN was.kv)  c == CapOf(was.bc, e.ml) IN
    IF Cfg(t).kind = 3
    THEN /\ n + 2 < (was.bc * e.ml) \div 1000
         /\ IF "ih" \in DOMAIN e
            THEN MaxDistance(DOMAIN was.kv \cup {e.k}, was.bc) + 1 < MaxLookups(was.bc)
            ELSE n + 2 < 2 * Log2(was.bc)
    ELSE n + was.er + 2 + was.bc \div 500 < c
NeedlessGrowth(was, e, t) ==
    Cfg(t).kind # 3 /\ e.bc > was.bc
    /\ LET n == Cardinality(DOMAIN was.kv) IN n + n \div 8 + 4 + was.bc \div 500 < (was.bc * e.ml) \div 1000

\* an operation that changed the capacity answers for "a rehash preserves the contents"
Grown(was, e) == IF was.bc # -1 /\ e.bc # was.bc THEN {"C04"} ELSE {}

\* the iterator a lookup or an insertion returns goes on like the traversal from begin() does from there
TailChk(P, e, f) ==
    IF "tl" \notin DOMAIN e THEN {}
    ELSE LET at == { j \in 1..Len(e.wl) : e.wl[j] = e.k } IN
         F({"C03"} \cup P, "iterator-continues",
           IF ~Has(f, e.k) THEN e.tl = <<>>
           ELSE at # {} /\ e.tl = SubSeq(e.wl, CHOOSE j \in at : TRUE, Len(e.wl)))
         \cup F({"C03"} \cup P, "iteration-once", NoDup(e.wl) /\ SeqRange(e.wl) = DOMAIN f)

SetKv(o, f) == [O EXCEPT ![o].kv = f]

Eff(e, t) ==
    LET o   == e.o
        me  == O[o]
        kv  == me.kv
        P   == OpProps(e.op) \cup me.sus \cup Grown(me, e)
    IN
    CASE e.op = "new" ->
            IF e.th = 1 THEN R(O, {})
            ELSE R([O EXCEPT ![o] = Fresh(EmptyMap, e.tag, IF Cfg(t).sa = 1 THEN e.aa ELSE -1, {})], {})
      [] e.op \in {"newr", "newil", "newrc", "newm"} ->
            IF e.th = 1 THEN R(O, {})
            ELSE R([O EXCEPT ![o] = Fresh(PutAllNew(EmptyMap, e.ks, e.vs, Len(e.ks)), e.tag, IF Cfg(t).sa = 1 THEN e.aa ELSE -1, {})],
                   F({"C13"}, "arg-changed", e.ka = 1))
      [] e.op \in {"insr", "insil", "insm"} ->
            IF e.th = 1
            THEN R(SetKv(o, PrefixNew(kv, e.ks, e.vs, e.sz)), {})
            ELSE R(SetKv(o, PutAllNew(kv, e.ks, e.vs, Len(e.ks))), F({"C13"}, "arg-changed", e.ka = 1))
      [] e.op = "ilasg" ->
            IF e.th = 1
            THEN R([O EXCEPT ![o].fz = TRUE], {})
            ELSE R([O EXCEPT ![o].kv = PutAllNew(EmptyMap, e.ks, e.vs, Len(e.ks)), ![o].rs = 0, ![o].st = EmptyMap,
                             \* robin_hash_map has no list assignment: it converts the list to a fresh map
                             ![o].ml = IF Cfg(t).stable = 1 THEN @ ELSE -1,
                             ![o].ht = IF Cfg(t).stable = 1 THEN @ ELSE -1,
                             ![o].at = IF Cfg(t).stable = 1 THEN @ ELSE -1], {})
      [] e.op \in {"cpy", "cpya"} ->
            IF e.th = 1 THEN R(O, {})
            ELSE R([O EXCEPT ![o] = [Fresh(O[e.p].kv, O[e.p].ht,
                                           IF e.op = "cpya" /\ Cfg(t).sa = 1 THEN e.aa ELSE O[e.p].at, O[e.p].sus)
                                     EXCEPT !.ml = O[e.p].ml]], {})
      [] e.op \in {"mov", "mova"} ->
            IF e.th = 1 THEN R([O EXCEPT ![e.p].fz = TRUE], {})
            ELSE LET own == e.op = "mova" /\ Cfg(t).sa = 1     \* an allocator of its own
                     eq  == ~own \/ O[e.p].at = e.aa            \* which can take over the storage
                 IN
                 R([O EXCEPT ![o] = [O[e.p] EXCEPT !.at = IF own THEN e.aa ELSE @,
                                                   !.st = IF eq THEN @ ELSE EmptyMap,
                                                   !.rs = IF eq THEN @ ELSE 0,
                                                   !.bc = IF eq THEN @ ELSE -1],
                             ![e.p] = [Fresh(EmptyMap, -1, O[e.p].at, O[e.p].sus \cup {"C05"}) EXCEPT !.fz = FALSE]],
                   F({"C01", "C05"}, "moved-from-not-empty", e.psz = 0))
      [] e.op = "casg" ->
            IF e.th = 1 THEN R(O, {})
            ELSE IF e.p = o THEN R([O EXCEPT ![o].st = EmptyMap, ![o].rs = 0, ![o].bc = -1], {})
            ELSE R([O EXCEPT ![o] = [Fresh(O[e.p].kv, O[e.p].ht, IF Cfg(t).prop = 1 THEN O[e.p].at ELSE me.at, me.sus \cup O[e.p].sus)
                                     EXCEPT !.ml = O[e.p].ml, !.ro = O[e.p].ro]], {})
      [] e.op = "masg" ->
            IF e.th = 1 THEN R([O EXCEPT ![e.p].fz = TRUE, ![o].fz = TRUE], {})
            ELSE LET eq == Cfg(t).sa = 0 \/ Cfg(t).prop = 1 \/ O[e.p].at = me.at IN
                 R([O EXCEPT ![o] = [O[e.p] EXCEPT !.at = IF Cfg(t).prop = 1 THEN @ ELSE me.at,
                                                   !.st = IF eq THEN @ ELSE EmptyMap,
                                                   !.rs = IF eq THEN @ ELSE 0,
                                                   !.bc = IF eq THEN @ ELSE -1,
                                                   !.sus = @ \cup me.sus],
                             ![e.p] = Fresh(EmptyMap, -1, O[e.p].at, O[e.p].sus \cup {"C05"})],
                   F({"C01", "C05"}, "moved-from-not-empty", e.psz = 0))
      [] e.op = "swp" ->
            LET a == O[o]  b == O[e.p] IN
            R(IF o = e.p THEN O
              ELSE [O EXCEPT ![o] = [b EXCEPT !.at = IF Cfg(t).prop = 1 THEN b.at ELSE a.at, !.sus = @ \cup {"C05"}],
                             ![e.p] = [a EXCEPT !.at = IF Cfg(t).prop = 1 THEN a.at ELSE b.at, !.sus = @ \cup {"C05"}]],
              F({"C01", "C05"}, "swap-size", e.psz = Cardinality(DOMAIN a.kv)))
      [] e.op = "del" -> R([O EXCEPT ![o] = Dead], {})
      [] e.op = "ins" ->
            LET as  == e.h \in AssignForms
                new == ~Has(kv, e.k)
                nkv == IF as THEN Put(kv, e.k, e.v) ELSE PutNew(kv, e.k, e.v)
                argf == IF e.h \in LvalueForms \/ (e.h \in TryForms /\ ~new)
                        THEN F({"C13"}, "arg-changed", e.ka = 1 /\ e.va = 1) ELSE {}
            IN IF e.th = 1 THEN R(O, argf)
               ELSE R(SetKv(o, nkv),
                      argf
                      \cup F(P, "insert-flag", e.r = -1 \/ e.r = (IF new THEN 1 ELSE 0))
                      \cup F(P, "insert-iterator-key", e.rk = e.k)
                      \cup F(P, "insert-iterator-value", e.rv = nkv[e.k])
                      \cup TailChk(P, e, nkv))
      [] e.op = "idx" ->
            IF e.th = 1 THEN R(O, F({"C13"}, "arg-changed", e.ka = 1))
            ELSE LET nkv == PutNew(kv, e.k, 0) IN
                 R(SetKv(o, nkv), F(P, "index-value", e.rv = nkv[e.k]) \cup F({"C13"}, "arg-changed", e.ka = 1))
      [] e.op = "idxs" ->
            IF e.th = 1 THEN R(O, F({"C13"}, "arg-changed", e.ka = 1))
            ELSE R(SetKv(o, Put(kv, e.k, e.v)), F({"C13"}, "arg-changed", e.ka = 1))
      [] e.op \in {"find", "cfind"} ->
            IF e.th = 1 THEN R(O, {})
            ELSE R(O, F(P, "find-result", e.r = (IF Has(kv, e.k) THEN 1 ELSE 0))
                      \cup (IF Has(kv, e.k) /\ e.r = 1 THEN F(P, "find-element", e.rk = e.k /\ e.rv = kv[e.k]) ELSE {})
                      \cup TailChk(P, e, kv))
      [] e.op = "has" ->
            IF e.th = 1 THEN R(O, {})
            ELSE R(O, F(P, "contains", e.r = (IF Has(kv, e.k) THEN 1 ELSE 0))
                      \cup F(P, "count", e.c = (IF Has(kv, e.k) THEN 1 ELSE 0)))
      [] e.op \in {"at", "cat"} ->
            IF e.th = 1 THEN R(O, {})
            ELSE R(O, F(P, "at-throws", e.r = (IF Has(kv, e.k) THEN 1 ELSE 0))
                      \cup (IF Has(kv, e.k) /\ e.r = 1 THEN F(P, "at-value", e.rv = kv[e.k]) ELSE {}))
      [] e.op = "set" ->
            R(IF Has(kv, e.k) THEN SetKv(o, Put(kv, e.k, e.v)) ELSE O,
              F(P, "find-result", e.r = (IF Has(kv, e.k) THEN 1 ELSE 0)))
      [] e.op = "era" ->
            IF e.th = 1 THEN R(O, {})
            ELSE R(SetKv(o, Remove(kv, {e.k})), F(P, "erase-count", e.r = (IF Has(kv, e.k) THEN 1 ELSE 0)))
      [] e.op = "erai" ->
            \* the iterator returned refers to the rest of the traversal
            R(SetKv(o, Remove(kv, {e.k})),
              F(P \cup {"C12"}, "erase-iterator-order",
                IF Cfg(t).stable = 1 THEN e.af = e.bf
                ELSE SeqRange(e.af) = SeqRange(e.bf) /\ NoDup(e.af)))
      [] e.op = "erar" ->
            R(SetKv(o, Remove(kv, SeqRange(e.ks))),
              F(P \cup {"C12"}, "erase-range-order",
                IF Cfg(t).stable = 1 THEN e.af = e.bf
                ELSE SeqRange(e.af) = SeqRange(e.bf) /\ NoDup(e.af))
              \cup F(P, "range-keys", SeqRange(e.ks) \subseteq DOMAIN kv /\ NoDup(e.ks)))
      [] e.op = "eraks" ->
            IF e.th = 1 THEN R([O EXCEPT ![o].fz = TRUE], {})
            ELSE R(SetKv(o, Remove(kv, SeqRange(e.ks))),
                   F(P, "erase-keys-count", e.r = Cardinality(SeqRange(e.ks) \cap DOMAIN kv)))
      [] e.op = "iter" ->
            R(O, F({"C03"} \cup P, "iteration-once", NoDup(e.ks) /\ SeqRange(e.ks) = DOMAIN kv)
                 \cup F({"C03"} \cup P, "iteration-lengths", \A x \in {e.n1, e.n2, e.n3} : x = Cardinality(DOMAIN kv))
                 \cup F({"C03"} \cup P, "iterator-algebra", e.ok = 1))
      [] e.op = "erif" ->
            LET S == { x \in DOMAIN kv : x % e.m = e.q } IN
            R(SetKv(o, Remove(kv, S)), F(P, "erase-if-count", e.r = Cardinality(S)))
      [] e.op = "erall" ->
            LET S == { x \in DOMAIN kv : x % e.m = e.q } IN
            R(SetKv(o, Remove(kv, S)),
              F(P, "erase-loop-visits", NoDup(e.ks) /\ SeqRange(e.ks) = DOMAIN kv))
      [] e.op = "clr" -> R([O EXCEPT ![o].kv = EmptyMap, ![o].st = EmptyMap, ![o].rs = 0], {})
      [] e.op = "rsv" ->
            IF e.th = 1 THEN R(O, {})
            ELSE R([O EXCEPT ![o].rs = IF Cfg(t).stable = 1 THEN e.c ELSE 0, ![o].ro = (me.ro /\ e.bc = me.bc) \/ (e.ro = 1 /\ e.bc # me.bc)],
                   F({"C04"}, "reserve-too-small",
                     IF e.bc <= 32 \/ e.ro = 1 \/ (me.ro /\ e.bc = me.bc) THEN e.bc >= e.c ELSE e.bc * (e.ml + 1) >= e.c * 1000 - 1000))
      [] e.op = "reh" ->
            IF e.th = 1 THEN R(O, {})
            ELSE R([O EXCEPT ![o].rs = 0, ![o].ro = (me.ro /\ e.bc = me.bc) \/ (e.ro = 1 /\ e.bc # me.bc)], F({"C04"}, "rehash-too-small", IF Cfg(t).kind = 1 THEN (e.bc + 1) * 16 >= e.c * 15 ELSE e.bc >= e.c))
      [] e.op = "shr" ->
            IF e.th = 1 THEN R(O, {})
            ELSE R([O EXCEPT ![o].rs = 0, ![o].ro = (e.h = "t")],
                   F({"C04"}, "shrink-grew", me.bc = -1 \/ e.bc <= Max(me.bc, 64) \/ me.ro))
      [] e.op = "hug" ->
            \* more than any machine can hold: refused, and nothing has changed
            R(O, F({"C04", "C10"}, "impossible-capacity-accepted", e.th = 1)
                 \cup F({"C04", "C08"}, "refusal-changed-capacity", me.bc = -1 \/ e.bc = me.bc))
      [] e.op = "mlf" ->
            IF e.th = 1 THEN R([O EXCEPT ![o].ml = e.ml], {})
            ELSE R([O EXCEPT ![o].rs = 0, ![o].ml = e.ml, ![o].ro = FALSE],
                   F({"C11"}, "mlf-value",
                     \/ Abs(e.ml - e.c) <= 5
                     \/ (e.ml > e.c /\ e.c < 500)          \* raised to the lower limit
                     \/ (e.ml < e.c /\ e.c > 600))         \* lowered to the upper limit
                   \cup F({"C11"}, "mlf-range", e.ml >= 200 /\ e.ml <= 1000)
                   \cup F({"C11"}, "mlf-needless-growth",
                          me.bc = -1 \/ e.bc = me.bc \/ e.sz * 1000 > me.bc * e.ml - 5 * me.bc))
      [] e.op = "obs" ->
            R(O, F({"C11"}, "load-factor", Abs(e.lf * e.bc - 1000 * e.sz) <= e.bc \/ e.bc = 0)
                 \cup F({"C11"}, "load-factor-empty", e.bc # 0 \/ e.lf = 0)
                 \cup F({"C11"}, "capacity", e.cap >= e.sz)
                 \cup F({"C11"}, "size-limits", e.mx = 1)
                 \* bucket(): a place of its own for every element, no bucket for an absent key
                 \cup F({"C11"}, "bucket-shared", NoDup(e.bk))
                 \cup F({"C11"}, "bucket-range",
                        Cfg(t).kind \notin {1, 2} \/ \A j \in 1..Len(e.bk) : e.bk[j] < e.bc)
                 \cup F({"C11"}, "bucket-absent", \A j \in 1..Len(e.bn) : e.bn[j] >= e.bc)
                 \cup F({"C14"} \cup (me.sus \cap {"C05"}), "functor-state", me.ht = -1 \/ e.hh = me.ht * 101)
                 \cup F({"C07"} \cup (me.sus \cap {"C05"}), "allocator-identity", e.al = -1 \/ me.at = -1 \/ e.al = me.at))
      [] e.op = "dump" ->
            IF me.fz
            THEN R([O EXCEPT ![o].kv = [x \in SeqRange(e.ks) |-> e.vs[CHOOSE j \in 1..Len(e.ks) : e.ks[j] = x]],
                             ![o].fz = FALSE, ![o].st = EmptyMap, ![o].ml = -1],
                   F({"C08", "C03"}, "iteration-duplicates", NoDup(e.ks)))
            ELSE R(O, F({"C03"} \cup P, "iteration-once", NoDup(e.ks) /\ Len(e.ks) = Cardinality(DOMAIN kv))
                      \cup F({"C03"} \cup P, "contents-keys", SeqRange(e.ks) = DOMAIN kv)
                      \cup F(P, "contents-values", \A j \in 1..Len(e.ks) : Has(kv, e.ks[j]) => e.vs[j] = kv[e.ks[j]])
                      \cup F({"C09"}, "address-changed",
                             Cfg(t).stable = 0 \/ \A j \in 1..Len(e.ks) : Has(me.st, e.ks[j]) => e.as[j] = me.st[e.ks[j]])
                      \cup F({"C03"} \cup P, "two-elements-one-address", NoDup(e.as))
                      \* an insertion on a present key leaves the stored key as it is; so does every reorganisation
                      \cup F({"C02"} \cup P, "stored-key-replaced",
                             \A j \in 1..Len(e.kt) : Has(me.kg, e.ks[j]) => e.kt[j] = me.kg[e.ks[j]]))
      [] e.op = "cdump" ->
            R(O, F({"C03"} \cup P, "const-iteration", NoDup(e.ks) /\ SeqRange(e.ks) = DOMAIN kv)
                 \cup F({"C03"} \cup P, "cbegin-iteration", NoDup(e.k2) /\ SeqRange(e.k2) = DOMAIN kv)
                 \cup F(P, "contents-values", \A j \in 1..Len(e.ks) : Has(kv, e.ks[j]) => e.vs[j] = kv[e.ks[j]]))
      [] e.op = "bins" ->
            LET S == Progression(e.a, e.b, e.s) IN
            R(SetKv(o, IF e.h = "i" THEN BulkAssign(kv, S, e.d) ELSE BulkNew(kv, S, e.d)),
              F(P, "bulk-insert-count", e.r = (IF e.h = "i" THEN Cardinality(S) ELSE Cardinality(S \ DOMAIN kv))))
      [] e.op = "bera" ->
            LET S == Progression(e.a, e.b, e.s) IN
            R(SetKv(o, Remove(kv, S)), F(P, "bulk-erase-count", e.r = Cardinality(S \cap DOMAIN kv)))
      [] e.op = "bfind" ->
            R(O, F(P, "bulk-find", SeqRange(e.ks) = DOMAIN kv \cap (e.a)..(e.b - 1))
                 \cup F(P, "bulk-find-values", \A j \in 1..Len(e.ks) : Has(kv, e.ks[j]) => e.vs[j] = kv[e.ks[j]]))

(* ---- what must hold after any operation ---- *)
RECURSIVE Total(_, _)
Total(OO, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Cardinality(DOMAIN OO[x].kv) + Total(OO, S \ {x})

AnyFuzzy(OO) == \E x \in Ids : OO[x].fz

PostChk(e, t, OO) ==
    LET o   == e.o
        me  == OO[o]
        was == O[o]
        P   == OpProps(e.op) \cup was.sus \cup me.sus \cup (IF e.th = 1 THEN {"C08"} ELSE {}) \cup Grown(was, e)
        n   == Cardinality(DOMAIN me.kv)
    IN  F(P, "liveness-of-object", (e.sz = -1) = ~me.al)
        \cup (IF ~me.al \/ me.fz \/ e.sz = -1 THEN {}
              ELSE F(P, "size", e.sz = n)
                   \cup F(P, "empty", e.em = (IF e.sz = 0 THEN 1 ELSE 0))
                   \cup F({"C11"}, "buckets-less-than-size", e.bc >= e.sz)
                   \cup F({"C11"}, "max-load-exceeded", me.ro \/ e.bc <= 32 \/ e.sz * 1000 <= e.bc * (e.ml + 1))
                   \cup F({"C11"} \cup (me.sus \cap {"C05"}), "mlf-changed", me.ml = -1 \/ e.ml = me.ml)
                   \cup F({"C04"} \cup (me.sus \cap {"C05"}), "reserve-broken",
                          e.op \notin InsertOps \/ me.bc = -1 \/ e.sz + e.th > me.rs \/ ~Rehashed(me, e))
                   \cup F({"C04", "C11"} \cup Tp(t), "insert-needless-rehash",
                          ~(e.op \in {"ins", "idx", "idxs"} /\ me.bc > 0 /\ Rehashed(me, e) /\ NeedlessRehash(was, e, t)))
                   \cup F({"C04", "C11"} \cup Tp(t), "insert-needless-growth",
                          ~(e.op \in {"ins", "idx", "idxs"} /\ me.bc > 0 /\ NeedlessGrowth(was, e, t)))
                   \cup F({"C04", "C09"}, "lookup-rehashed",
                          e.op \notin LookupOps \/ ~Rehashed(me, e))
                   \cup F({"C04", "C09"}, "erase-rehashed",
                          e.op \notin EraseOps \/ ~Rehashed(me, e))
                   \cup F({"C04", "C11"}, "insert-shrank",
                          e.op \notin InsertOps \/ me.bc = -1 \/ e.bc >= me.bc))
        \cup F({"C06"} \cup (P \cap {"C08"}), "life-error", e.le = 0)
        \cup F({"C05", "C14"}, "functor-used-after-move", e.fe = 0)
        \cup F({"C06"} \cup (P \cap {"C08"}), "live-keys", e.lk = NA \/ AnyFuzzy(OO) \/ e.lk = Total(OO, Ids))
        \cup F({"C06"} \cup (P \cap {"C08"}), "live-values", e.lv = NA \/ AnyFuzzy(OO) \/ e.lv = Total(OO, Ids))
        \cup F({"C07"}, "allocator-misuse", e.ae = 0)
        \cup F(P \cup {"C10"}, "unexpected-exception", e.th = 0 \/ HasInj(e) \/ e.op = "hug")

\* absorb the observations
Absorb(e, t, OO) ==
    LET o == e.o  me == OO[o]
        two == e.op \in {"swp", "mov", "mova", "masg"}
        OP == IF two /\ e.p # o THEN [OO EXCEPT ![e.p].bc = IF e.op = "swp" THEN @ ELSE -1,
                                                ![e.p].kg = IF e.op = "swp" THEN @ ELSE EmptyMap] ELSE OO
    IN IF ~me.al THEN OP
       ELSE [OP EXCEPT ![o].bc = e.bc,
                       ![o].ml = IF me.ml = -1 THEN e.ml ELSE @,
                       ![o].ro = me.ro /\ (me.bc = -1 \/ me.bc = e.bc \/ e.op \in {"shr", "rsv", "reh"}),
                       ![o].rs = IF e.op \in EraseOps \/ (~two /\ me.bc # -1 /\ e.bc # me.bc /\ e.op # "rsv") THEN 0 ELSE @,
                       ![o].st = IF e.op = "dump" THEN [x \in SeqRange(e.ks) |-> e.as[CHOOSE j \in 1..Len(e.ks) : e.ks[j] = x]]
                                 ELSE IF me.bc = -1 \/ (~two /\ Rehashed(me, e)) \/ e.op \in {"rsv", "reh", "shr", "mlf"}
                                         \/ (e.na = NA /\ e.op \in InsertOps /\ (e.th = 1 \/ e.sz # Cardinality(DOMAIN O[o].kv))) THEN EmptyMap
                                 ELSE Restrict(@, DOMAIN me.kv),
                       ![o].kg = IF e.op = "dump" THEN [x \in {e.ks[j] : j \in 1..Len(e.kt)} |-> e.kt[CHOOSE j \in 1..Len(e.kt) : e.ks[j] = x]]
                                 ELSE IF e.op \in {"mov", "mova", "cpy", "cpya", "casg", "masg", "ilasg", "clr"} THEN EmptyMap
                                 ELSE IF DOMAIN @ \subseteq DOMAIN me.kv THEN @ ELSE Restrict(@, DOMAIN me.kv),
                       ![o].er = IF e.th = 1 \/ e.op \in {"casg", "masg", "ilasg", "clr", "mlf"} THEN Lots
                                 ELSE IF Rehashed(me, e) \/ e.op \in {"rsv", "reh", "shr"} THEN (IF e.op \in {"rsv", "reh", "shr"} /\ e.bc = me.bc /\ e.na <= 0 THEN @ ELSE 0)
                                 ELSE IF e.op \in EraseOps THEN Min(Lots, @ + Cardinality(DOMAIN O[o].kv) - Cardinality(DOMAIN me.kv)) ELSE @,
                       ![o].sus = @ \cup Sticky(e) \cup Grown(me, e)]

EndChk(e) ==
    LET P == {"C06"} IN
    F({"C06", "C08"}, "leaked-keys", e.lk \in {0, NA}) \cup F({"C06", "C08"}, "leaked-values", e.lv \in {0, NA})
    \cup F({"C06"}, "life-error", e.le = 0)
    \cup F({"C07", "C08"}, "leaked-memory", e.ab \in {0, NA}) \cup F({"C07"}, "allocator-misuse", e.ae = 0)

CrashProps(e) ==
    OpProps(e.at) \cup (IF e.o \in Ids THEN O[e.o].sus ELSE {}) \cup {"C01", "C06", "C10"}

Tagged(t, S) == S \cup { <<p, c[2]>> : p \in Tp(t), c \in S }

Step ==
    LET t == tid
        e == Traces[t][i]
        r == Eff(e, t)
        b == Tagged(t, r.bad \cup PostChk(e, t, r.O))
    IN IF e.op = "end"
       THEN LET eb == Tagged(t, EndChk(e)) IN
            /\ bad' = eb
            /\ IF eb = {} THEN TRUE ELSE PrintT(<<"FAIL", t, i, eb>>)
            /\ UNCHANGED O
       ELSE IF e.op = "crash"
       THEN LET cb == Tagged(t, F(CrashProps(e), "crash", FALSE)) IN
            /\ bad' = cb
            /\ PrintT(<<"FAIL", t, i, cb>>)
            /\ UNCHANGED O
       ELSE IF e.op \in {"harness_error"}
       THEN /\ PrintT(<<"MODEL-ERROR", t, i>>) /\ bad' = {<<"X", "harness">>} /\ UNCHANGED O
       ELSE /\ bad' = b
            /\ IF b = {} THEN TRUE ELSE PrintT(<<"FAIL", t, i, b>>)
            /\ O' = Absorb(e, t, r.O)

Init == /\ tid \in 1..Len(Traces)
        /\ i = 2
        /\ O = [x \in Ids |-> Dead]
        /\ bad = {}

Next == /\ bad = {}                      \* a rejected trace stops at its first rejected event
        /\ i <= Len(Traces[tid])
        /\ Step
        /\ i' = i + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

\* The verdict: no recorded behaviour violates a clause of the property in focus.
Accepted == \A c \in bad : Focus # "ALL" /\ c[1] # Focus /\ c[1] # "X"
=============================================================================
