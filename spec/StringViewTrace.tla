--------------------------- MODULE StringViewTrace ---------------------------
(* Conformance of recorded executions of jstd::basic_string_view to           *)
(* StringView/Strings.  One JSON array of events per line of the file TRACES; *)
(* every event carries arguments, results, the contents of the views it       *)
(* changed, and whether any buffer was modified.                              *)
EXTENDS Strings, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Regs == 0..3

VARIABLES tid, i, view, bad
vars == <<tid, i, view, bad>>

F(name, ok) == IF ok THEN {} ELSE { <<"C15", name>> }
B(x) == IF x THEN 1 ELSE 0

\* the characters a constructor is given
Made(e) == IF e.z = 2 THEN <<>> ELSE IF e.z = 1 THEN CStr(e.s) ELSE e.s

\* the views after the event
After(e) ==
    CASE e.op = "new" -> [view EXCEPT ![e.r] = Made(e)]
      [] e.op = "cp"  -> [view EXCEPT ![e.r] = view[e.q]]
      [] e.op = "sub" -> IF InRange(view[e.q], e.pos) THEN [view EXCEPT ![e.r] = Sub(view[e.q], e.pos, e.cnt)] ELSE view
      [] e.op = "swp" -> [view EXCEPT ![e.r] = view[e.q], ![e.q] = view[e.r]]
      [] e.op = "clr" -> [view EXCEPT ![e.r] = <<>>]
      [] e.op = "app" -> [view EXCEPT ![e.r] = @ \o e.s]
      [] OTHER -> view

Rel(e, a, b) ==
    LET c == Cmp(a, b)
        m == MinN(Len(a), Len(b))
        l == Lcp(a, b) IN
    F("==", e.eq = B(c = 0)) \cup F("!=", e.ne = B(c # 0)) \cup F("<", e.lt = B(c < 0)) \cup F("<=", e.le = B(c <= 0))
    \cup F(">", e.gt = B(c > 0)) \cup F(">=", e.ge = B(c >= 0)) \cup F("compare", e.c = c) \cup F("is_equal", e.ie = B(c = 0))
    \cup F("compare(string)", e.cs = c) \cup F("is_equal(string)", e.is = B(c = 0))
    \cup F("compare(s1,len1,s2,len2)", e.c4 = c) \cup F("is_equal(s1,len1,s2,len2)", e.i4 = B(c = 0))
    \cup F("compare(s1,s2,count)", e.c3 = (IF l >= m THEN 0 ELSE c)) \cup F("is_equal(s1,s2,count)", e.i3 = B(l >= m))

\* compare / is_equal of a part of a view: out of range is an exception of both
Part(e, inr, x, y) ==
    IF ~inr THEN F("exception", e.th = 1) \cup F("is_equal-exception", e.t2 = 1)
    ELSE F("no-exception", e.th = 0 /\ e.t2 = 0) \cup F("compare(part)", e.c = Cmp(x, y)) \cup F("is_equal(part)", e.ie = B(x = y))

Obs(e, a) ==
    F("size", e.size = Len(a) /\ e.length = Len(a)) \cup F("empty", e.empty = B(Len(a) = 0))
    \cup F("front", e.front = (IF a = <<>> THEN -1 ELSE a[1])) \cup F("back", e.back = (IF a = <<>> THEN -1 ELSE a[Len(a)]))
    \cup F("iteration", e.f = a /\ e.h = a) \cup F("const-iteration", e.g = a) \cup F("reverse", e.b = Rev(a) /\ e.k = Rev(a))
    \cup F("random-access", e.ra = 1) \cup F("to_string", e.str = a) \cup F("stream", e.out = a) \cup F("data", e.v = a)

Clauses(e) ==
    F("const-operation-writes", e.mod = 0)
    \cup
    CASE e.op = "cmp"  -> Rel(e, view[e.r], view[e.q])
      [] e.op = "cst"  -> LET c == Cmp(view[e.r], CStr(e.s)) IN F("compare(C string)", e.c = c) \cup F("is_equal(C string)", e.ie = B(c = 0))
      [] e.op = "cc"   -> LET c == Cmp(CStr(e.s), CStr(e.t)) IN F("compare(C,C)", e.c = c) \cup F("is_equal(C,C)", e.ie = B(c = 0))
      [] e.op = "p2"   -> Part(e, InRange(view[e.r], e.pos), Sub(view[e.r], e.pos, e.cnt), view[e.q])
      [] e.op = "p4"   -> Part(e, InRange(view[e.r], e.pos) /\ InRange(view[e.q], e.pos2), Sub(view[e.r], e.pos, e.cnt), Sub(view[e.q], e.pos2, e.cnt2))
      [] e.op = "pc"   -> Part(e, InRange(view[e.r], e.pos), Sub(view[e.r], e.pos, e.cnt), CStr(e.s))
      [] e.op = "pn"   -> Part(e, InRange(view[e.r], e.pos), Sub(view[e.r], e.pos, e.cnt), e.s)
      [] e.op = "copy" -> F("writes-outside", e.clean = 1)
                          \cup (IF ~InRange(view[e.r], e.pos) THEN F("exception", e.th = 1)
                                ELSE LET x == Sub(view[e.r], e.pos, e.cnt) IN
                                     F("no-exception", e.th = 0) \cup F("copy-count", e.ret = Len(x)) \cup F("copy", e.d = x))
      [] e.op = "at"   -> IF e.pos < 0 \/ e.pos >= Len(view[e.r]) THEN F("exception", e.th = 1 /\ e.t2 = 1)
                          ELSE LET x == view[e.r][e.pos + 1] IN F("at", e.th = 0 /\ e.t2 = 0 /\ e.x = x /\ e.y = x) \cup F("[]", e.z = x /\ e.z2 = x)
      [] e.op = "obs"  -> Obs(e, view[e.r])
      [] e.op = "sub"  -> F("exception", e.th = (IF InRange(view[e.q], e.pos) THEN 0 ELSE 1))
      [] e.op = "app"  -> F("terminated", e.nul = 1)
      [] OTHER -> {}

Changed(e, v2) == IF e.op \in {"new", "cp", "sub", "clr", "app"} THEN F("contents-after-" \o e.op, e.v = v2[e.r])
                  ELSE IF e.op = "swp" THEN F("contents-after-swap", e.v = v2[e.r] /\ e.w = v2[e.q]) ELSE {}

Step ==
    LET e == Traces[tid][i] IN
    IF e.op = "crash" THEN /\ bad' = { <<"C15", "crash">> } /\ PrintT(<<"FAIL", tid, i, bad'>>) /\ UNCHANGED view
    ELSE LET v2 == After(e)
             b  == Clauses(e) \cup Changed(e, v2)
         IN /\ bad' = b
            /\ view' = v2
            /\ IF b = {} THEN TRUE ELSE PrintT(<<"FAIL", tid, i, b>>)

Init == tid \in 1..Len(Traces) /\ i = 2 /\ view = [r \in Regs |-> <<>>] /\ bad = {}
Next == bad = {} /\ i <= Len(Traces[tid]) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
