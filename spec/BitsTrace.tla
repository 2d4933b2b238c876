------------------------------ MODULE BitsTrace ------------------------------
(* Recorded results of Power2.h and BitUtils.h against Bits: every event is   *)
(* one operand (the list of its one bits) with the results of all functions.  *)
EXTENDS Bits, Sequences, TLC, Json, IOUtils
LOCAL W == INSTANCE Words

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad
vars == <<tid, i, bad>>

F(name, ok) == IF ok THEN {} ELSE { <<"C16", name>> }
R(s) == { s[k] : k \in DOMAIN s }
B(x) == IF x THEN 1 ELSE 0

\* run_time::* on a type of w bits
RunTime(e) ==
    LET S == R(e.x)  w == e.w IN
    F("run_time::round_up", R(e.up) = RoundUp(S, w)) \cup F("run_time::next_pow2", R(e.nx) = NextPow2(S, w))
    \cup F("run_time::round_to", R(e.rt) = RoundTo(S)) \cup F("run_time::round_down", R(e.rd) = RoundDown(S))
    \cup F("run_time::prev_pow2", R(e.pv) = PrevPow2(S)) \cup F("run_time::log2_int", e.lg = Log2Int(S))
    \cup F("run_time::clear_low_bit", R(e.cl) = ClearLow(S))
    \cup (IF S = {} THEN {} ELSE
          F("run_time::is_pow2", e.p2 = B(IsPow2(S))) \cup F("run_time::bitScanForward", e.sf = Low(S)) \cup F("run_time::bitScanReverse", e.sr = Top(S))
          \cup F("run_time::countTrailingZeros", e.tz = Low(S))
          \* narrow types are counted within the 32 bits they are converted to
          \cup F("run_time::countLeadingZeros", e.lz = Clz(S, IF w < 32 THEN 32 ELSE w)))

\* BitUtils on a type of w bits (w = 32, 64)
Utils(e) ==
    LET S == R(e.x)  w == e.w IN
    F("popcnt", e.pc = Popcnt(S)) \cup F("popcnt-portable", \A v \in R(e.pci) : v = Popcnt(S))
    \cup F("countTrailingZeros", e.tz = Ctz(S, w)) \cup F("countLeadingZeros", e.lz = Clz(S, w))
    \cup F("clz-portable", e.lzi = Clz(S, w)) \cup F("ctz-portable", e.tzi = Ctz(S, w))
    \cup F("ls1b", R(e.ls) = Ls1b(S)) \cup F("ms1b", R(e.ms) = Ms1b(S)) \cup F("clearLowBit", R(e.cl) = ClearLow(S))
    \cup F("log2", e.lg = Log2Int(S))
    \cup (IF S = {} THEN {} ELSE F("bsf", e.sf = Low(S)) \cup F("bsr", e.sr = Top(S)))

\* compile_time::*<N>
CompileTime(e) ==
    LET S == R(e.x)  w == e.w IN
    F("compile_time::round_to_pow2", R(e.rt) = RoundTo(S)) \cup F("compile_time::round_to_power2", R(e.rt2) = RoundTo(S))
    \cup F("compile_time::round_down_pow2", R(e.rd) = RoundDown(S)) \cup F("compile_time::round_down_power2", R(e.rd2) = RoundDown(S))
    \cup F("compile_time::round_up_pow2", R(e.up) = RoundUp(S, w)) \cup F("compile_time::round_up_power2", R(e.up2) = RoundUp(S, w))
    \cup F("compile_time::next_pow2", R(e.nx) = NextPow2(S, w)) \cup F("compile_time::next_power2", R(e.nx2) = NextPow2(S, w))
    \cup F("compile_time::clear_low_bit", R(e.cl) = ClearLow(S)) \cup F("compile_time::countTrailingZeros", e.tz = Ctz(S, w))
    \cup (IF S = {} THEN {} ELSE F("compile_time::is_pow2", e.p2 = B(IsPow2(S))) \cup F("compile_time::countLeadingZeros", e.lz = Clz(S, w)))

\* compile_time::cmin, cmax of two operands, compared by their highest difference
Less(S, T) == S # T /\ Top((S \ T) \cup (T \ S)) \in T
MinMax(e) ==
    LET S == R(e.x)  T == R(e.y) IN
    F("compile_time::cmin", R(e.mn) = (IF Less(S, T) THEN S ELSE T)) \cup F("compile_time::cmax", R(e.mx) = (IF Less(S, T) THEN T ELSE S))

\* decimal logarithms: 10^k <= x < 10^(k + 1)
RECURSIVE Below(_, _, _)
Below(a, b, k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE Below(a, b, k - 1)
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN W!Word(5, 1) ELSE W!MulSmall(Ten(k - 1), 10)
Tens == [k \in 0..20 |-> Ten(k)]
Log10Is(x, k) == IF x = W!Zero(5) THEN k = 0 ELSE k \in 0..19 /\ ~ Below(x, Tens[k], 5) /\ Below(x, Tens[k + 1], 5)
Logs(e) == F("jm_log10_u64", Log10Is(W!Ext(e.v, 5), e.l64)) \cup F("jm_log10_u32", Log10Is(W!Ext(SubSeq(e.v, 1, 2), 5), e.l32))

Step ==
    LET e == Traces[tid][i]
        b == CASE e.op = "rt" -> RunTime(e) [] e.op = "bu" -> Utils(e) [] e.op = "ct" -> CompileTime(e) [] e.op = "mm" -> MinMax(e) [] e.op = "lt" -> Logs(e)
               [] e.op = "crash" -> F("crash", FALSE)
    IN bad' = b /\ (IF b = {} THEN TRUE ELSE PrintT(<<"FAIL", tid, i, b>>))

Init == tid \in 1..Len(Traces) /\ i = 2 /\ bad = {}
Next == bad = {} /\ i <= Len(Traces[tid]) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
