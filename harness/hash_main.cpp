// Records results of the library's hash functions.  [-DJSTD_HAVE_SSE42_CRC32C=1]
#include <jstd/hasher/hashes.h>
#include <jstd/hasher/hash_crc32.h>
#include <jstd/hasher/hash_helper.h>
#include <jstd/hasher/fnv1a.h>
#include <jstd/string/string_view.h>
#include <fstream>
#include <sstream>
#include <memory>
#include "guard.hpp"
using namespace gd;
namespace H = jstd::hashes;

static std::string l16(uint64_t x, int n) {
    std::string r = "[";
    for (int i = 0; i < n; i++) { if (i) r += ","; r += std::to_string((unsigned)(x >> (16 * i) & 0xFFFF)); }
    return r + "]";
}
struct Ev {
    std::string s; Ev(const char * op) : s(std::string("{\"op\":\"") + op + "\"") {}
    Ev & i(const char * k, long long v) { s += std::string(",\"") + k + "\":" + std::to_string(v); return *this; }
    Ev & w(const char * k, uint64_t v) { s += std::string(",\"") + k + "\":" + l16(v, 2); return *this; }
    Ev & x(const char * k, uint64_t v) { s += std::string(",\"") + k + "\":" + l16(v, 4); return *this; }
    Ev & j(const char * k, const std::string & v) { s += std::string(",\"") + k + "\":" + v; return *this; }
    void done() { emit(s + "}"); }
};
#ifdef __SSE4_2__
static const int kSSE = 1;
#else
static const int kSSE = 0;
#endif
#if JSTD_HAVE_SSE42_CRC32C
static const int kMac = 1;
#else
static const int kMac = 0;
#endif

template <class T, int F> static uint32_t hh(const T & k) { return jstd::hash_helper<T, uint32_t, F>::getHashCode(k); }
template <class T, int F> static uint32_t jh(const T & k) { return jstd::hash<T, uint32_t, F>()(k); }
template <class T, int F> static uint32_t sh(const T & k) { return jstd::string_hash_helper<T, uint32_t, F>::getHashCode(k); }
enum { CRC = jstd::HashFunc_CRC32C, T31 = jstd::HashFunc_Time31, STD = jstd::HashFunc_Time31Std };

static std::vector<long long> nums;
static bool has_nul;

// where: e (ends at an inaccessible page), s (starts behind one), g<n> (at an offset, surrounded by garbage), 0 (no data at all)
template <class C> static C * put(Buf & b, const std::string & where, bool nul, int salt) {
    b.fill((unsigned char)(0x31 + salt * 37));
    size_t off = where.size() > 1 ? (size_t)atoi(where.c_str() + 1) * sizeof(C) : 0;
    C * p = (C *)b.place(where[0], off, (nums.size() + (nul ? 1 : 0)) * sizeof(C));
    for (size_t i = 0; i < nums.size(); i++) { C c = (C)nums[i]; memcpy((void *)(p + i), &c, sizeof c); }
    if (nul) { C c = 0; memcpy((void *)(p + nums.size()), &c, sizeof c); }
    b.snap();
    return p;
}
static std::string list() { return arr(nums.begin(), nums.end()); }

static void bytes(const std::string & where, uint32_t seed) {
    static Buf b(2), b2(2); static int salt = 0; salt++;
    char * p = put<char>(b, where, false, salt); size_t n = nums.size();
    unsigned char * u = (unsigned char *)p;
    Ev e("h"); e.j("b", list()).j("at", "\"" + where + "\"").w("seed", seed);
    e.w("os", H::OpenSSL_Hash(p, n)).w("osu", H::OpenSSL_Hash(u, n)).w("bk", H::BKDRHash(p, n)).w("bku", H::BKDRHash(u, n)).w("b31", H::BKDRHash_31(p, n)).w("b31s", H::BKDRHash_31_std(p, n));
    e.w("t31", H::Times31(p, n)).w("t31s", H::Times31Std(p, n)).w("ap", H::APHash(p, n)).w("apu", H::APHash(u, n)).w("dj", H::DJBHash(p, n)).w("rk", rocksdb::hashes::Hash(p, n, seed));
    e.x("fnv", H::msvc_fnv_1a(u, n)).w("crc", H::hash_crc32(p, n));
#ifdef __SSE4_2__
    e.w("c86", H::intel_crc32_x86(p, n)).w("c64", H::intel_crc32_x64(p, n)).w("s86", H::intel_crc32_simple_x86(p, n)).w("s64", H::intel_crc32_simple_x64(p, n));
#endif
    e.w("yo", H::FNV1A_Yoshimura(p, n)).w("tr", H::FNV1A_Yoshimitsu_TRIADii_xmm(p, n)).w("pe", H::FNV1A_penumbra(p, n));
    bool chg = b.changed();
    // through the library's hashers: a string, views of other memory and of the string, pointers
    std::string s(p, n), s2(s); jstd::string_view v(p, n), v2(s2.data(), s2.size());
    std::string_view sv(p, n);
    if (n == 0) v2 = jstd::string_view();
    std::string hc = l16(hh<std::string, CRC>(s), 2) + "," + l16(jh<std::string, CRC>(s2), 2) + "," + l16(hh<jstd::string_view, CRC>(v), 2) + "," + l16(jh<jstd::string_view, CRC>(v2), 2)
                   + "," + l16(sh<std::string, CRC>(s), 2) + "," + l16(sh<jstd::string_view, CRC>(v), 2) + "," + l16(sh<jstd::string_view, CRC>(v2), 2)
                   + "," + l16(jstd::hash_helper<const char *, uint32_t, CRC>::getHashCode(p, n), 2) + "," + l16(jstd::hash_helper<unsigned char *, uint32_t, CRC>::getHashCode(u, n), 2);
    std::string ht = l16(hh<std::string, T31>(s), 2) + "," + l16(jh<std::string, T31>(s2), 2) + "," + l16(hh<jstd::string_view, T31>(v), 2) + "," + l16(jh<jstd::string_view, T31>(v2), 2)
                   + "," + l16(sh<std::string, T31>(s), 2) + "," + l16(sh<jstd::string_view, T31>(v), 2) + "," + l16(sh<jstd::string_view, T31>(v2), 2)
                   + "," + l16(jstd::hash_helper<char *, uint32_t, T31>::getHashCode(p, n), 2) + "," + l16(jstd::hash_helper<const unsigned char *, uint32_t, T31>::getHashCode(u, n), 2)
                   + "," + l16(hh<std::string, STD>(s), 2) + "," + l16(jh<std::string, STD>(s2), 2) + "," + l16(hh<jstd::string_view, STD>(v), 2) + "," + l16(jh<jstd::string_view, STD>(v2), 2)
                   + "," + l16(sh<std::string, STD>(s), 2) + "," + l16(sh<jstd::string_view, STD>(v), 2) + "," + l16(sh<jstd::string_view, STD>(v2), 2)
                   + "," + l16(jstd::hash_helper<const char *, uint32_t, STD>::getHashCode(p, n), 2);
    if (!has_nul) {                                   // C strings, up to and including the terminator
        const char * z = put<char>(b2, where, true, salt + 3);
        hc += "," + l16(jstd::hash_helper<const char *, uint32_t, CRC>::getHashCode(z), 2) + "," + l16(jstd::hash<const char *, uint32_t, CRC>()(z), 2);
        ht += "," + l16(jstd::hash_helper<const char *, uint32_t, T31>::getHashCode(z), 2) + "," + l16(jstd::hash_helper<const char *, uint32_t, STD>::getHashCode(z), 2);
    }
    e.j("hc", "[" + hc + "]").j("ht", "[" + ht + "]").i("chg", chg || b.changed()).done();
}

struct S3 { unsigned char a[3]; }; struct S12 { unsigned char a[12]; }; struct S20 { unsigned char a[20]; };
template <class T> static void object(const std::string & where) {           // a key hashed by its object representation, by reference and by pointer
    static Buf b(1); static int salt = 0; b.fill((unsigned char)(0x11 + 29 * ++salt));
    T * p = (T *)b.place(where[0], where.size() > 1 ? (size_t)atoi(where.c_str() + 1) * alignof(T) : 0, sizeof(T));
    unsigned char raw[sizeof(T)];
    for (size_t i = 0; i < sizeof(T); i++) raw[i] = (unsigned char)(i < nums.size() ? nums[i] : 7 * i);
    memcpy((void *)p, raw, sizeof(T)); b.snap();
    Ev e("o"); e.j("b", arr(raw, raw + sizeof(T)));
    e.j("hc", "[" + l16(hh<T, CRC>(*p), 2) + "," + l16(jh<T, CRC>(*p), 2) + "," + l16(jstd::hash<T, uint32_t, CRC>()((const T *)p), 2) + "]");
    e.j("ht", "[" + l16(hh<T, T31>(*p), 2) + "," + l16(jh<T, STD>(*p), 2) + "," + l16(jstd::hash<T, uint32_t, T31>()((const T *)p), 2) + "," + l16(jstd::hash<T, uint32_t, STD>()((const T *)p), 2) + "]");
    e.i("chg", b.changed()).done();
}

template <class C> static void wide(const std::string & where, const char * name) {
    static Buf b(2), b2(2); static int salt = 0; salt++;
    C * p = put<C>(b, where, false, salt); size_t n = nums.size();
    Ev e("w"); e.j("c", list()).i("sz", sizeof(C)).j("t", std::string("\"") + name + "\"");
    e.w("bk", H::BKDRHash(p, n)).w("b31", H::BKDRHash_31(p, n)).w("b31s", H::BKDRHash_31_std(p, n)).w("t31", H::Times31(p, n)).w("t31s", H::Times31Std(p, n)).w("ap", H::APHash(p, n)).w("dj", H::DJBHash(p, n));
    typedef std::basic_string<C> S; typedef jstd::basic_string_view<C> V;
    S s(p, n); V v(p, n);
    e.j("es", "[" + l16(sh<S, T31>(s), 2) + "," + l16(sh<V, T31>(v), 2) + "," + l16(sh<S, STD>(s), 2) + "," + l16(sh<V, STD>(v), 2) + "]");
    e.j("bs", "[" + l16(sh<S, CRC>(s), 2) + "," + l16(sh<V, CRC>(v), 2) + "]");
    e.i("chg", b.changed()).done();
}
static void wides(const std::string & where) {       // std::wstring, wstring_view and pointers: hashed by their bytes
    static Buf b(2), b2(2); static int salt = 0; salt++;
    wchar_t * p = put<wchar_t>(b, where, false, salt); size_t n = nums.size();
    std::wstring s(p, n); jstd::wstring_view v(p, n), v2; if (n) v2 = v;
    std::string hc = l16(hh<std::wstring, CRC>(s), 2) + "," + l16(jh<std::wstring, CRC>(s), 2) + "," + l16(hh<jstd::wstring_view, CRC>(v), 2) + "," + l16(jh<jstd::wstring_view, CRC>(v2), 2)
                   + "," + l16(jstd::hash_helper<const wchar_t *, uint32_t, CRC>::getHashCode(p, n), 2);
    std::string ht = l16(hh<std::wstring, T31>(s), 2) + "," + l16(jh<std::wstring, T31>(s), 2) + "," + l16(hh<jstd::wstring_view, T31>(v), 2) + "," + l16(jh<jstd::wstring_view, T31>(v2), 2)
                   + "," + l16(hh<std::wstring, STD>(s), 2) + "," + l16(jh<std::wstring, STD>(s), 2) + "," + l16(hh<jstd::wstring_view, STD>(v), 2) + "," + l16(jh<jstd::wstring_view, STD>(v2), 2)
                   + "," + l16(jstd::hash_helper<wchar_t *, uint32_t, T31>::getHashCode(p, n), 2) + "," + l16(jstd::hash_helper<const wchar_t *, uint32_t, STD>::getHashCode(p, n), 2);
    if (!has_nul) {
        const wchar_t * z = put<wchar_t>(b2, where, true, salt + 3);
        hc += "," + l16(jstd::hash_helper<const wchar_t *, uint32_t, CRC>::getHashCode(z), 2);
        ht += "," + l16(jstd::hash_helper<const wchar_t *, uint32_t, T31>::getHashCode(z), 2) + "," + l16(jstd::hash_helper<const wchar_t *, uint32_t, STD>::getHashCode(z), 2);
    }
    Ev("ws").j("c", list()).j("hc", "[" + hc + "]").j("ht", "[" + ht + "]").i("chg", b.changed()).done();
}

template <class T> static void fun(Ev & e, const char * k, uint64_t raw) {      // functors on an integral type; the conversion to size_t is the value's
    T x = (T)raw;
    typedef std::hash<T> B0; struct B { typedef std::size_t result_type; std::size_t operator()(const T & v) const noexcept { return B0()(v); } };
    e.x((std::string(k) + "v").c_str(), (uint64_t)(std::size_t)x);
    e.x((std::string(k) + "s").c_str(), jstd::SimpleHash<B>()(x)).x((std::string(k) + "f").c_str(), jstd::FibonacciHash<B>()(x)).x((std::string(k) + "m").c_str(), jstd::MumHash<B>()(x));
    e.j((std::string(k) + "h").c_str(), "[" + l16(hh<T, T31>(x), 2) + "," + l16(jh<T, T31>(x), 2) + "," + l16(hh<T, STD>(x), 2) + "]");
    e.w((std::string(k) + "c").c_str(), jh<T, CRC>(x));
    unsigned char raw8[sizeof(T)]; memcpy(raw8, &x, sizeof x); e.j((std::string(k) + "b").c_str(), arr(raw8, raw8 + sizeof(T)));
}
static void ints(uint64_t x, uint64_t y) {
    Ev e("i"); e.x("x", x).x("y", y);
    H::_uint128_t p = H::uint128_mul(x, y);
    e.j("pr", l16(p.low, 4)).j("pr2", l16(p.high, 4));
    e.x("f32", H::fibonacci_hash32(x)).x("f64", H::fibonacci_hash64(x)).x("fib", H::fibonacci_hash(x));
    e.w("m32", H::mum_hash32((uint32_t)x, (uint32_t)y)).x("m64", H::mum_hash64(x, y)).x("mum", H::mum_hash(x)).x("x64", H::mum_mul_mix64(x, y)).w("x32", H::mum_mul_mix32((uint32_t)x, (uint32_t)y)).x("mix", H::mum_mul_mix(x));
    e.x("ic", H::int_hash_crc32(x)).x("sc", H::simple_int_hash_crc32(x));
#ifdef __SSE4_2__
    e.w("i86", H::intel_int_crc32_x86((uint32_t)x)).x("i64", H::intel_int_crc32_x64(x)).x("is", H::intel_simple_int_crc32(x));
#endif
    e.done();
    Ev f("f"); f.x("x", x);
    fun<unsigned char>(f, "A", x); fun<signed char>(f, "B", x); fun<short>(f, "C", x); fun<unsigned short>(f, "D", x); fun<int>(f, "E", x); fun<unsigned>(f, "F", x); fun<long>(f, "G", x); fun<unsigned long>(f, "I", x); fun<long long>(f, "J", x); fun<unsigned long long>(f, "K", x);
    f.done();
}

int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    std::ifstream in(argv[1]);
    install(fopen(argv[2], "w"));
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ls(line); std::string c, w; ls >> c;
        if (c.empty()) continue;
        op(c.c_str());
        if (c == "T") { flush_trace(); std::string nm; ls >> nm; emit("{\"op\":\"cfg\",\"trace\":\"" + nm + "\",\"sse\":" + num(kSSE) + ",\"mac\":" + num(kMac) + "}"); continue; }
        if (c == "i") { std::string a, b; ls >> a >> b; ints(strtoull(a.c_str(), 0, 16), strtoull(b.c_str(), 0, 16)); continue; }
        uint32_t seed = 0;
        ls >> w;
        if (c == "h") { std::string a; ls >> a; seed = (uint32_t)strtoul(a.c_str(), 0, 16); }
        nums.clear(); has_nul = false; long long v; while (ls >> v) { nums.push_back(v); if (v == 0) has_nul = true; }
        if (c == "h") bytes(w, seed);
        else if (c == "w") { wide<wchar_t>(w, "wchar_t"); wide<char16_t>(w, "char16_t"); wides(w); }
        else if (c == "o") {
            object<float>(w); object<double>(w); object<S3>(w); object<S12>(w); object<S20>(w);
        }
    }
    flush_trace();
    return 0;
}
