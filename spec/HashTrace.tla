------------------------------ MODULE HashTrace ------------------------------
(* Recorded results of the library's hash functions against Hashes.           *)
EXTENDS Hashes, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad
vars == <<tid, i, bad>>

F(name, ok) == IF ok THEN {} ELSE { <<"C17", name>> }
R(s) == { s[k] : k \in DOMAIN s }

CharBytes(c, sz) == FlattenSeq([k \in 1..Len(c) |-> IF sz = 2 THEN <<c[k] % 256, c[k] \div 256>> ELSE ToBytes(Word(2, c[k]))])

\* the default string hash: CRC-32C if the processor has it
Def(cf, b) == IF cf.sse = 1 THEN CrcPad(b, 8) ELSE Times31(b)

Bytes(e, cf) ==
    LET b == e.b  t31 == Times31(b)  bk == BKDR(b)  ap == AP(b)  os == OpenSSL(b)  def == Def(cf, b)  simple == Crc32C(b) IN
    F("OpenSSL_Hash", e.os = os /\ e.osu = os) \cup F("BKDRHash", e.bk = bk /\ e.bku = bk) \cup F("BKDRHash_31", e.b31 = t31 /\ e.b31s = t31)
    \cup F("Times31", e.t31 = t31 /\ e.t31s = t31) \cup F("APHash", e.ap = ap /\ e.apu = ap) \cup F("DJBHash", e.dj = DJB(b))
    \cup F("rocksdb-Hash", e.rk = Rocks(b, e.seed)) \cup F("msvc_fnv_1a", e.fnv = MsvcFnv(b)) \cup F("hash_crc32", e.crc = def)
    \cup (IF cf.sse = 0 THEN {} ELSE F("intel_crc32_x86", e.c86 = CrcPad(b, 4)) \cup F("intel_crc32_x64", e.c64 = CrcPad(b, 8))
                                     \cup F("intel_crc32_simple", e.s86 = simple /\ e.s64 = simple))
    \cup F("FNV1A_Yoshimura", e.yo = Yoshimura(b)) \cup F("FNV1A_Yoshimitsu_TRIADii_xmm", e.tr = Kaze(b, 1)) \cup F("FNV1A_penumbra", e.pe = Kaze(b, 2))
    \cup F("hash_helper-crc", R(e.hc) = {def}) \cup F("hash_helper-31", R(e.ht) = {t31}) \cup F("writes-to-the-key", e.chg = 0)

Object(e, cf) ==
    F("hash_helper-object", R(e.hc) = {Def(cf, e.b)}) \cup F("hash_helper-object-31", R(e.ht) = {Times31(e.b)}) \cup F("writes-to-the-key", e.chg = 0)

Wide(e, cf) ==
    LET c == e.c  t31 == Times31(c) IN
    F("BKDRHash-wide", e.bk = BKDR(c)) \cup F("Times31-wide", {e.b31, e.b31s, e.t31, e.t31s} = {t31}) \cup F("APHash-wide", e.ap = AP(c)) \cup F("DJBHash-wide", e.dj = DJB(c))
    \cup F("string_hash_helper-wide-31", R(e.es) = {t31}) \cup F("string_hash_helper-wide", R(e.bs) = {Def(cf, CharBytes(c, e.sz))}) \cup F("writes-to-the-key", e.chg = 0)

WideStr(e, cf) ==
    LET b == CharBytes(e.c, 4) IN
    F("hash_helper-wstring-crc", R(e.hc) = {Def(cf, b)}) \cup F("hash_helper-wstring-31", R(e.ht) = {Times31(b)}) \cup F("writes-to-the-key", e.chg = 0)

Ints(e, cf) ==
    LET x == e.x  y == e.y  xl == Lo(x, 2)  yl == Lo(y, 2)  p == MulFull(x, y)  ib == ToBytes(x)
        mum == Mum64(x, GoldenPrime)  m64 == WXor(SubSeq(p, 1, 4), SubSeq(p, 5, 8))  t == Times31(ib)
        def == IF cf.sse = 1 THEN IntCrc64(x) ELSE Ext(t, 4)  sim == IF cf.sse = 1 THEN Ext(CrcRaw(Ones, ib), 4) ELSE Ext(t, 4) IN
    F("uint128_mul", e.pr \o e.pr2 = p) \cup F("fibonacci_hash64", e.f64 = Fib64(x) /\ e.fib = e.f64)
    \cup F("fibonacci_hash32", e.f32 = Shr(MulFull(xl, C32(40503, 31153)), 12))
    \cup F("mum_hash64", e.m64 = m64) \cup F("mum_hash32", e.m32 = Mum32(xl, yl)) \cup F("mum_hash", e.mum = mum)
    \cup F("mum_mul_mix64", e.x64 = m64) \cup F("mum_mul_mix32", e.x32 = Mum32(xl, yl)) \cup F("mum_mul_mix", e.mix = Mum64(x, FibMul))
    \cup F("int_hash_crc32", e.ic = def) \cup F("simple_int_hash_crc32", e.sc = sim)
    \cup (IF cf.sse = 0 THEN {} ELSE F("intel_int_crc32_x86", e.i86 = CrcRaw(Ones, ToBytes(xl))) \cup F("intel_int_crc32_x64", e.i64 = def) \cup F("intel_simple_int_crc32", e.is = sim))

\* functors and hash_helper on the integral types: v is the value converted to size_t
SignX(b, x) == LET n == Len(b)  neg == b[n] >= 128
                   byte(k) == IF k <= n THEN b[k] ELSE IF neg THEN 255 ELSE 0
               IN [k \in 1..4 |-> byte(2 * k - 1) + 256 * byte(2 * k)]
Fun(v, s, f, m, h, c, b, signed, cf) ==
    F("functor-value", v = (IF signed THEN SignX(b, v) ELSE Ext(v, 4)) /\ SubSeq(ToBytes(v), 1, Len(b)) = b) \cup F("SimpleHash", s = v) \cup F("FibonacciHash", f = Fib64(v)) \cup F("MumHash", m = Mum64(v, GoldenPrime))
    \cup F("hash_helper-integral-31", R(h) = {Lo(v, 2)}) \cup F("hash_helper-integral", c = (IF cf.mac = 1 THEN Lo(v, 2) ELSE Def(cf, b)))
Funs(e, cf) ==
    Fun(e.Av, e.As, e.Af, e.Am, e.Ah, e.Ac, e.Ab, FALSE, cf) \cup Fun(e.Bv, e.Bs, e.Bf, e.Bm, e.Bh, e.Bc, e.Bb, TRUE, cf)
    \cup Fun(e.Cv, e.Cs, e.Cf, e.Cm, e.Ch, e.Cc, e.Cb, TRUE, cf) \cup Fun(e.Dv, e.Ds, e.Df, e.Dm, e.Dh, e.Dc, e.Db, FALSE, cf)
    \cup Fun(e.Ev, e.Es, e.Ef, e.Em, e.Eh, e.Ec, e.Eb, TRUE, cf) \cup Fun(e.Fv, e.Fs, e.Ff, e.Fm, e.Fh, e.Fc, e.Fb, FALSE, cf)
    \cup Fun(e.Gv, e.Gs, e.Gf, e.Gm, e.Gh, e.Gc, e.Gb, TRUE, cf) \cup Fun(e.Iv, e.Is, e.If, e.Im, e.Ih, e.Ic, e.Ib, FALSE, cf)
    \cup Fun(e.Jv, e.Js, e.Jf, e.Jm, e.Jh, e.Jc, e.Jb, TRUE, cf) \cup Fun(e.Kv, e.Ks, e.Kf, e.Km, e.Kh, e.Kc, e.Kb, FALSE, cf)

Step ==
    LET e == Traces[tid][i]
        cf == Traces[tid][1]
        b == CASE e.op = "h" -> Bytes(e, cf) [] e.op = "o" -> Object(e, cf) [] e.op = "w" -> Wide(e, cf) [] e.op = "ws" -> WideStr(e, cf)
               [] e.op = "i" -> Ints(e, cf) [] e.op = "f" -> Funs(e, cf)
               [] e.op = "crash" -> F("crash", FALSE)
    IN bad' = b /\ (IF b = {} THEN TRUE ELSE PrintT(<<"FAIL", tid, i, b>>))

Init == tid \in 1..Len(Traces) /\ i = 2 /\ bad = {}
Next == bad = {} /\ i <= Len(Traces[tid]) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
