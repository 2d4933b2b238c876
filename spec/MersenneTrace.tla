---------------------------- MODULE MersenneTrace ----------------------------
(* Recorded generators against Mersenne.  Objects 0 and 1 are generators, 2   *)
(* is the shared generator behind BasicRandomGenerator; the state of each is  *)
(* its window, <<>> if it is unknown.                                         *)
EXTENDS Mersenne, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, win, bad
vars == <<tid, i, win, bad>>

F(name, ok) == IF ok THEN {} ELSE { <<"C18", name>> }
R(s) == { s[k] : k \in DOMAIN s }

\* values as words of four limbs, ordered
RECURSIVE Below(_, _, _)
Below(a, b, k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE Below(a, b, k - 1)
Lt(a, b) == Below(a, b, Len(a))
Le(a, b) == ~ Lt(b, a)
Min2(a, b) == IF Lt(b, a) THEN b ELSE a
Max2(a, b) == IF Lt(b, a) THEN a ELSE b

\* words a drawing of n values by f consumes
Needs(w, f) == IF w = 32 /\ f \in {"u64", "i64", "int", "uint"} THEN 2 ELSE 1
Halves(x, f) == IF f \in {"u32", "i32"} THEN {Lo(x, 2), SubSeq(x, 3, 4)} ELSE {x}
Fits(w, f, x, v) ==
    \A k \in DOMAIN v :
        IF Needs(w, f) = 2 THEN v[k] = x[2 * k] \o x[2 * k - 1] \/ v[k] = x[2 * k - 1] \o x[2 * k]
        ELSE IF w = 64 THEN v[k] \in Halves(x[k], f) ELSE v[k] = x[k]

\* every value of a range of at most 8 is drawn; both halves and both parities of a wider one are
Small(lo, hi) == SubSeq(lo, 2, 4) = SubSeq(hi, 2, 4) /\ hi[1] - lo[1] < 8
Half(lo, hi) == LET s == Add(Ext(lo, 5), Ext(hi, 5)) IN Lo(Shr(s, 1), 4)
Reaches(lo, hi, vs) ==
    IF Small(lo, hi) THEN { v[1] : v \in vs } = lo[1]..hi[1]
    ELSE LET m == Half(lo, hi) IN /\ (\E v \in vs : Le(v, m)) /\ (\E v \in vs : Lt(m, v))
                                  /\ { v[1] % 2 : v \in vs } = {0, 1}
Zero64 == <<0, 0, 0, 0>>
Signed(f) == f \in {"i32", "i64", "int"}
From(e) == IF e.ar = 2 THEN e.lo ELSE IF Signed(e.f) THEN <<0, 0, 0, 32768>> ELSE Zero64

Rng(e) ==
    LET a == From(e)  lo == Min2(a, e.hi)  hi == Max2(a, e.hi)  vs == R(e.v) IN
    F("range-" \o e.f, \A v \in vs : Le(lo, v) /\ Le(v, hi)) \cup F("reach-" \o e.f, Reaches(lo, hi, vs)) \cup F("repeat-" \o e.f, e.v = e.v2)

DOne == <<0, 0, 0, 49136>>          \* the order numbers of 1.0 and 0.0
DHalf == <<0, 0, 0, 49120>>
DZero == <<0, 0, 0, 32768>>
Flt(e) ==
    LET a == IF e.ar = 2 THEN e.lo ELSE DZero  b == IF e.ar = 2 THEN e.hi ELSE DOne  mid == IF e.ar = 2 THEN e.mid ELSE DHalf
        lo == Min2(a, b)  hi == Max2(a, b)  vs == R(e.v) IN
    F("range-float-" \o e.f, \A v \in vs : Le(lo, v) /\ Le(v, hi) /\ (e.f = "d53" /\ e.ar = 0 => Lt(v, hi)))
    \cup F("reach-float-" \o e.f, lo = hi \/ ((\E v \in vs : Lt(v, mid)) /\ (\E v \in vs : Lt(mid, v))))
    \cup F("repeat-float-" \o e.f, e.v = e.v2)

Step ==
    LET e == Traces[tid][i]
        w == Traces[tid][1].w
        mt == Traces[tid][1].alg # "LibcRandom"
        c == Len(e.v) * Needs(w, e.f)
        x == Extend(w, win[e.o], c)
        judged == e.op = "draw" /\ mt /\ win[e.o] # <<>>
        b == CASE e.op = "draw" -> IF judged THEN F("sequence-" \o e.f, Fits(w, e.f, Outputs(w, x, c), e.v)) ELSE {}
               [] e.op = "same" -> F("repeat-" \o e.f, e.v = e.v2) \cup F("rand_max", IF mt THEN e.max = WNot(Zero(LW(w))) ELSE e.f = "rand" => \A v \in R(e.v) : Le(v, e.max))
               [] e.op = "rng" -> Rng(e) [] e.op = "flt" -> Flt(e)
               [] e.op = "crash" -> F("crash", FALSE)
               [] OTHER -> {}
        now == CASE e.op = "seed" -> IF mt THEN Init0(w, e.s) ELSE <<>>
                 [] e.op = "keys" -> InitKeys(w, e.s, e.ks)
                 [] e.op = "copy" -> win[e.p]
                 [] judged -> Window(w, x)
                 [] OTHER -> <<>>
    IN bad' = b /\ (IF b = {} THEN TRUE ELSE PrintT(<<"FAIL", tid, i, b>>)) /\ win' = IF e.op = "crash" THEN win ELSE [win EXCEPT ![e.o] = now]

Init == tid \in 1..Len(Traces) /\ i = 2 /\ win = [o \in 0..2 |-> <<>>] /\ bad = {}
Next == bad = {} /\ i <= Len(Traces[tid]) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
