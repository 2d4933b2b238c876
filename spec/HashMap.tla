------------------------------- MODULE HashMap ------------------------------
(* The abstract specification: what any map of the library must look like to *)
(* a user.  A fixed number of map objects, each dead or alive; the value of  *)
(* a live one is a partial function from keys to values plus the properties  *)
(* that travel with it (the functor state and the maximum load factor).      *)
(*                                                                           *)
(* `ret' is what the last operation returned / reported: that is the part a  *)
(* user can observe immediately.  Capacity operations are stuttering steps   *)
(* of `obj': growth, rehash, reserve and shrink never change the value.      *)
EXTENDS MapOps

CONSTANTS Objs, Keys, Vals, Tags

VARIABLES obj, ret

vars == <<obj, ret>>

Dead == [al |-> FALSE, kv |-> EmptyMap, tag |-> 0]
Live(kv, tag) == [al |-> TRUE, kv |-> kv, tag |-> tag]

NoRet == [op |-> "none"]

Init == /\ obj = [o \in Objs |-> Dead]
        /\ ret = NoRet

New(o, t) ==
    /\ ~obj[o].al
    /\ obj' = [obj EXCEPT ![o] = Live(EmptyMap, t)]
    /\ ret' = [op |-> "new"]

Destroy(o) ==
    /\ obj[o].al
    /\ obj' = [obj EXCEPT ![o] = Dead]
    /\ ret' = [op |-> "del"]

Copy(o, p) ==               \* copy construction
    /\ ~obj[o].al /\ obj[p].al
    /\ obj' = [obj EXCEPT ![o] = obj[p]]
    /\ ret' = [op |-> "cpy"]

Move(o, p) ==               \* move construction: the source is left empty and usable
    /\ ~obj[o].al /\ obj[p].al
    /\ obj' = [obj EXCEPT ![o] = obj[p], ![p] = [obj[p] EXCEPT !.kv = EmptyMap]]
    /\ ret' = [op |-> "mov"]

CopyAssign(o, p) ==
    /\ obj[o].al /\ obj[p].al
    /\ obj' = [obj EXCEPT ![o] = obj[p]]
    /\ ret' = [op |-> "casg"]

MoveAssign(o, p) ==
    /\ obj[o].al /\ obj[p].al /\ o # p
    /\ obj' = [obj EXCEPT ![o] = obj[p], ![p] = [obj[p] EXCEPT !.kv = EmptyMap]]
    /\ ret' = [op |-> "masg"]

Swap(o, p) ==
    /\ obj[o].al /\ obj[p].al
    /\ obj' = [obj EXCEPT ![o] = obj[p], ![p] = obj[o]]
    /\ ret' = [op |-> "swp"]

\* insert, emplace, emplace_hint, try_emplace, insert(range element)
Insert(o, k, v) ==
    /\ obj[o].al
    /\ obj' = [obj EXCEPT ![o].kv = PutNew(@, k, v)]
    /\ ret' = [op |-> "ins", ok |-> ~Has(obj[o].kv, k), k |-> k, v |-> PutNew(obj[o].kv, k, v)[k]]

InsertOrAssign(o, k, v) ==
    /\ obj[o].al
    /\ obj' = [obj EXCEPT ![o].kv = Put(@, k, v)]
    /\ ret' = [op |-> "ioa", ok |-> ~Has(obj[o].kv, k), k |-> k, v |-> v]

Find(o, k) ==
    /\ obj[o].al
    /\ UNCHANGED obj
    /\ ret' = IF Has(obj[o].kv, k) THEN [op |-> "find", ok |-> TRUE, k |-> k, v |-> obj[o].kv[k]]
                                   ELSE [op |-> "find", ok |-> FALSE]

Erase(o, ks) ==             \* by key, by position, by range, by predicate
    /\ obj[o].al
    /\ obj' = [obj EXCEPT ![o].kv = Remove(@, ks)]
    /\ ret' = [op |-> "era", n |-> Cardinality(ks \cap DOMAIN obj[o].kv)]

Clear(o) ==
    /\ obj[o].al
    /\ obj' = [obj EXCEPT ![o].kv = EmptyMap]
    /\ ret' = [op |-> "clr"]

Iterate(o) ==               \* a full traversal visits every element exactly once, in some order
    /\ obj[o].al
    /\ UNCHANGED obj
    /\ \E s \in [1..Cardinality(DOMAIN obj[o].kv) -> DOMAIN obj[o].kv] :
          /\ NoDup(s)
          /\ ret' = [op |-> "dump", ks |-> s]

Capacity(o) ==              \* rehash, reserve, shrink_to_fit, max_load_factor
    /\ obj[o].al
    /\ UNCHANGED obj
    /\ ret' = [op |-> "cap"]

Throwing(o) ==              \* an operation left by an exception of an element or of the allocator
    /\ obj[o].al
    /\ UNCHANGED obj
    /\ ret' = [op |-> "throw"]

Next == \E o \in Objs :
    \/ \E t \in Tags : New(o, t)
    \/ Destroy(o) \/ Clear(o) \/ Iterate(o) \/ Capacity(o) \/ Throwing(o)
    \/ \E p \in Objs : Copy(o, p) \/ Move(o, p) \/ CopyAssign(o, p) \/ MoveAssign(o, p) \/ Swap(o, p)
    \/ \E k \in Keys : Find(o, k) \/ (\E v \in Vals : Insert(o, k, v) \/ InsertOrAssign(o, k, v))
    \/ \E ks \in SUBSET Keys : Erase(o, ks)

Spec == Init /\ [][Next]_vars

(* ---- properties of the abstract specification itself ---- *)
TypeOK == /\ \A o \in Objs : /\ obj[o].al \in BOOLEAN
                             /\ DOMAIN obj[o].kv \subseteq Keys
                             /\ \A k \in DOMAIN obj[o].kv : obj[o].kv[k] \in Vals
          /\ \A o \in Objs : ~obj[o].al => obj[o] = Dead

\* no operation on one object changes another one, except those that name both
Isolation == [][ \A o, p \in Objs :
                    (o # p /\ obj'[o] # obj[o] /\ obj'[p] # obj[p])
                    => ret'.op \in {"mov", "masg", "swp"} ]_vars

\* insertion without assignment never changes the value of a present key
NoOverwrite == [][ ret'.op = "ins" =>
                    \A o \in Objs : \A k \in DOMAIN obj[o].kv : obj'[o].kv[k] = obj[o].kv[k] ]_vars

\* elements disappear only through erase, clear, destruction, assignment, move and swap
NoLoss == [][ ret'.op \in {"ins", "ioa", "find", "dump", "cap", "throw", "new", "cpy"} =>
                    \A o \in Objs : DOMAIN obj[o].kv \subseteq DOMAIN obj'[o].kv ]_vars

ReadOnly == [][ ret'.op \in {"find", "dump", "cap", "throw"} => UNCHANGED obj ]_vars
=============================================================================
