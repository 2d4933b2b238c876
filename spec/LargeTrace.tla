----------------------------- MODULE LargeTrace -----------------------------
(* Recorded executions of the real maps with up to millions of elements,      *)
(* against the abstract map represented by runs (MapRuns).  Same reading as   *)
(* HashMapTrace, with bulk operations on whole intervals of keys.             *)
EXTENDS MapRuns, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, O, bad
vars == <<tid, i, O, bad>>

Dead == [al |-> FALSE, R |-> {}, bc |-> -1, ml |-> -1, rs |-> 0]
New(R) == [al |-> TRUE, R |-> R, bc |-> -1, ml |-> -1, rs |-> 0]
F(props, name, ok) == IF ok THEN {} ELSE { <<p, name>> : p \in props }

Recorded(e) == { e.R[k] : k \in DOMAIN e.R }
Ranges == {"r"}
\* number of elements that x permille of c buckets can hold
Part(c, x) == (c \div 1000) * x + ((c % 1000) * x) \div 1000

Props(e) ==
    CASE e.op = "ins" -> {"C01", "C02"} [] e.op \in {"cpy", "mov", "casg", "masg", "swp"} -> {"C01", "C05"}
      [] e.op = "erl" -> {"C01", "C12"} [] e.op = "dmp" -> {"C01", "C03"} [] e.op \in {"rsv", "reh", "shr"} -> {"C01", "C04"} [] OTHER -> {"C01"}
Big == {"C10"}     \* large tables belong to "any number of elements"

Step ==
    LET e == Traces[tid][i]
        kind == Traces[tid][1].kind
        o == e.o
        me == O[o]
        other == O[e.p]
        n == e.b - e.a
        grown == me.al /\ me.bc # -1 /\ e.bc # me.bc
        P == Props(e) \cup Big \cup (IF grown THEN {"C04"} ELSE {})
        new == CASE e.op = "new" -> New({})
                 [] e.op = "ins" -> IF e.f \in {"a", "s"} THEN [me EXCEPT !.R = Assign(@, e.a, e.b, e.d)] ELSE [me EXCEPT !.R = InsertNew(@, e.a, e.b, e.d)]
                 [] e.op \in {"era", "erl"} -> [me EXCEPT !.R = Delete(@, e.a, e.b), !.rs = 0]
                 [] e.op = "clr" -> [me EXCEPT !.R = {}, !.rs = 0]
                 [] e.op = "del" -> Dead
                 [] e.op \in {"cpy", "casg"} -> [New(other.R) EXCEPT !.ml = other.ml]
                 [] e.op \in {"mov", "masg", "swp"} -> other
                 [] e.op = "rsv" -> [me EXCEPT !.rs = IF kind = 3 THEN 0 ELSE e.a]
                 [] e.op \in {"reh", "shr"} -> [me EXCEPT !.rs = 0]
                 [] OTHER -> me
        there == CASE e.op = "swp" -> me [] e.op \in {"mov", "masg"} -> New({}) [] OTHER -> other
        sz == Size(new.R)
        res == CASE e.op = "ins" -> F(P, "bulk-insert-count", e.r = (IF e.f = "a" THEN n ELSE sz - Size(me.R)))
                 [] e.op = "era" -> F(P, "bulk-erase-count", e.r = Size(me.R) - sz)
                 [] e.op = "erl" -> F(P, "erase-loop-visits", e.r = Size(me.R))
                 [] e.op = "fnd" -> LET W == Within(me.R, e.a, e.b) IN F(P, "find-elements", Recorded(e) = W) \cup F(P, "find-result", e.r = Size(W))
                 [] e.op = "dmp" -> F(P, "contents", Recorded(e) = me.R) \cup F(P \cup {"C03"}, "iteration-lengths", e.r = Size(me.R) /\ e.r2 = Size(me.R))
                 [] e.op \in {"swp", "mov", "masg"} -> F(P, "size-of-the-other", e.psz = Size(there.R))
                 [] e.op = "rsv" -> F({"C04"}, "reserve-too-small", Part(e.bc, e.ml + 1) + 1 >= e.a)
                 [] e.op = "reh" -> F({"C04"}, "rehash-too-small", IF kind = 1 THEN e.bc + e.bc \div 15 + 2 >= e.a ELSE e.bc >= e.a)
                 [] e.op = "shr" -> F({"C04"}, "shrink-grew", e.bc <= me.bc \/ e.bc <= 64)
                 [] OTHER -> {}
        post == IF e.op = "del" THEN {}
                ELSE F(P, "size", e.sz = sz)
                     \cup F({"C11"} \cup Big, "max-load-exceeded", e.bc <= 32 \/ e.sz <= Part(e.bc, e.ml + 1) + 1)
                     \cup F({"C11"}, "mlf-changed", new.ml = -1 \/ e.ml = new.ml)
                     \cup F({"C11"}, "load-factor", e.bc = 0 \/ (e.sz <= Part(e.bc, e.lf + 1) + 1 /\ e.sz + 1 >= Part(e.bc, e.lf - 1)))
                     \cup F({"C04", "C09"}, "lookup-or-erase-rehashed", e.op \notin {"fnd", "dmp", "era", "erl"} \/ ~grown)
                     \cup F({"C04"}, "reserve-broken", ~(e.op = "ins" /\ grown /\ sz <= me.rs))
                     \cup F({"C04", "C11"}, "insert-shrank", e.op # "ins" \/ me.bc = -1 \/ e.bc >= me.bc)
                     \* growth by insertions is bounded by the contents
                     \cup F({"C10", "C11"}, "insert-needless-growth", ~(e.op = "ins" /\ grown /\ kind # 3 /\ e.bc > 64 /\ Part(e.bc, e.ml) > 3 * (sz + sz \div 4 + 64)))
                     \cup F({"C10"}, "growth-bound", ~(e.op = "ins" /\ grown /\ e.bc > 1024 /\ e.bc \div 64 > sz))
                     \cup F({"C01"} \cup Big, "unexpected-exception", e.th = 0)
        b == IF e.op = "crash" THEN F({"C01", "C10"} \cup (IF e.at \in {"cpy", "mov", "casg", "masg", "swp"} THEN {"C05"} ELSE IF e.at \in {"rsv", "reh", "shr", "ins"} THEN {"C04"} ELSE {}), "crash", FALSE)
             ELSE IF e.th = 1 THEN F({"C01"} \cup Big, "unexpected-exception", FALSE) ELSE res \cup post
        seen == [new EXCEPT !.bc = e.bc, !.ml = e.ml, !.rs = IF grown /\ e.op # "rsv" THEN 0 ELSE @]
    IN /\ bad' = b
       /\ IF b = {} THEN TRUE ELSE PrintT(<<"FAIL", tid, i, b>>)
       /\ O' = IF b # {} THEN O
               ELSE IF e.op = "del" THEN [O EXCEPT ![o] = Dead]
               ELSE IF e.op \in {"swp", "mov", "masg"} THEN [O EXCEPT ![e.p] = there, ![o] = seen]
               ELSE [O EXCEPT ![o] = seen]

Init == tid \in 1..Len(Traces) /\ i = 2 /\ O = [x \in 0..3 |-> Dead] /\ bad = {}
Next == bad = {} /\ i <= Len(Traces[tid]) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
