// Records results of jstd::run_time/compile_time (Power2.h) and jstd::BitUtils.
#include <jstd/support/BitUtils.h>
#include <jstd/support/Power2.h>
#include <jstd/math/log10_int.h>
#include <fstream>
#include <sstream>
#include <utility>
#include "guard.hpp"
using namespace gd;

static std::string bits(unsigned long long v) {
    std::string r = "["; bool first = true;
    for (int i = 0; i < 64; i++) if (v >> i & 1) { if (!first) r += ","; first = false; r += std::to_string(i); }
    return r + "]";
}
struct Ev { std::string s; Ev(const char * op) : s(std::string("{\"op\":\"") + op + "\"") {}
    Ev & i(const char * k, unsigned long long v) { if (v > 1000000) v = 1000000; s += std::string(",\"") + k + "\":" + std::to_string(v); return *this; }
    Ev & b(const char * k, unsigned long long v) { s += std::string(",\"") + k + "\":" + bits(v); return *this; }
    Ev & j(const char * k, const std::string & v) { s += std::string(",\"") + k + "\":" + v; return *this; }
    void done() { emit(s + "}"); } };

template <class T> static unsigned long long u(T x) { return (unsigned long long)(typename std::make_unsigned<T>::type)x; }

template <class T> static void rt(unsigned long long raw) {
    namespace p = jstd::run_time;
    T x = (T)raw;
    Ev e("rt"); e.i("w", sizeof(T) * 8).b("x", u(x));
    // the results of narrow types are 32 bits wide
    e.b("up", p::round_up<T>(x)).b("nx", p::next_pow2<T>(x)).b("rt", p::round_to<T>(x)).b("rd", p::round_down<T>(x)).b("pv", p::prev_pow2<T>(x)).i("lg", p::log2_int<T>(x));
    e.b("cl", u(p::clear_low_bit<T>(x)));
    if (x != 0) e.i("p2", p::is_pow2<T>(x)).i("sf", p::bitScanForward<T>(x)).i("sr", p::bitScanReverse<T>(x)).i("tz", p::countTrailingZeros<T>(x)).i("lz", p::countLeadingZeros<T>(x));
    e.done();
}
// decimal logarithms, with the operand as 16-bit limbs
static void lt(unsigned long long v) {
    unsigned long long q[4] = { v & 0xFFFF, v >> 16 & 0xFFFF, v >> 32 & 0xFFFF, v >> 48 };
    Ev("lt").j("v", arr(q, q + 4)).i("l64", jstd::jm_log10_u64(v)).i("l32", jstd::jm_log10_u32((unsigned)v)).done();
}
static std::string arr3(std::initializer_list<unsigned> l) { return arr(l.begin(), l.end()); }
static void bu32(unsigned x) {
    namespace b = jstd::BitUtils;
    Ev e("bu"); e.i("w", 32).b("x", x).i("pc", b::popcnt32(x)).j("pci", arr3({b::__internal_popcnt(x), b::__internal_popcnt_slow(x), b::__internal_hakmem_popcnt(x)}));
    e.i("tz", b::countTrailingZeros32(x)).i("lz", b::countLeadingZeros32(x)).i("lzi", b::__internal_clz(x)).i("tzi", b::__internal_ctz(x));
    e.b("ls", b::ls1b32(x)).b("ms", b::ms1b32(x)).b("cl", b::clearLowBit32(x)).i("lg", b::log2_32(x));
    if (x) e.i("sf", b::bsf32(x)).i("sr", b::bsr32(x));
    e.done();
}
static void bu64(uint64_t x, bool sz) {
    namespace b = jstd::BitUtils;
    Ev e("bu"); e.i("w", 64).b("x", x).i("pc", sz ? b::popcnt(x) : b::popcnt64(x)).j("pci", arr3({b::__internal_popcnt64(x)}));
    e.i("tz", sz ? b::countTrailingZeros(x) : b::countTrailingZeros64(x)).i("lz", sz ? b::countLeadingZeros(x) : b::countLeadingZeros64(x)).i("lzi", b::__internal_clzll(x)).i("tzi", b::__internal_ctzll(x));
    e.b("ls", sz ? b::ls1b(x) : b::ls1b64(x)).b("ms", sz ? b::ms1b(x) : b::ms1b64(x)).b("cl", sz ? b::clearLowBit(x) : b::clearLowBit64(x)).i("lg", sz ? b::log2_int(x) : b::log2_64(x));
    if (x) e.i("sf", sz ? b::bsf(x) : b::bsf64(x)).i("sr", sz ? b::bsr(x) : b::bsr64(x));
    e.done();
}
template <size_t N> static void ct() {
    namespace c = jstd::compile_time;
    Ev e("ct"); e.i("w", 64).b("x", N).b("rt", c::round_to_pow2<N>::value).b("rt2", c::round_to_power2<N>::value).b("rd", c::round_down_pow2<N>::value).b("rd2", c::round_down_power2<N>::value);
    e.b("up", c::round_up_pow2<N>::value).b("up2", c::round_up_power2<N>::value).b("nx", c::next_pow2<N>::value).b("nx2", c::next_power2<N>::value).b("cl", c::clear_low_bit<N>::value);
    e.i("tz", c::countTrailingZeros<N>::value).i("p2", c::is_pow2<N>::value).i("lz", c::countLeadingZeros<N>::value).done();
    const size_t M = (N >> 1) ^ 0x5555; 
    Ev("mm").b("x", N).b("y", M).b("mn", c::cmin<N, M>::value).b("mx", c::cmax<N, M>::value).done();
}
static constexpr size_t pat(size_t k, int j) {
    size_t p = size_t(1) << k;
    return j == 0 ? p - 1 : j == 1 ? p : j == 2 ? p + 1 : (p | (p >> 1) | (p >> (k / 2)));
}
template <int J, size_t... K> static void ctj(std::index_sequence<K...>) { int d[] = {(ct<pat(K, J)>(), 0)...}; (void)d; }
template <size_t... K> static void cts(std::index_sequence<K...>) { int d[] = {(ct<K>(), 0)...}; (void)d; }

int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    std::ifstream in(argv[1]);
    install(fopen(argv[2], "w"));
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ls(line); std::string c; ls >> c;
        if (c.empty()) continue;
        op(c.c_str());
        if (c == "T") { flush_trace(); std::string nm; ls >> nm; emit("{\"op\":\"cfg\",\"trace\":\"" + nm + "\"}"); }
        else if (c == "x") {                             // x <64-bit operand in hex>: every width
            std::string h; ls >> h; unsigned long long v = strtoull(h.c_str(), 0, 16);
            rt<unsigned char>(v); rt<signed char>(v); rt<unsigned short>(v); rt<short>(v); rt<unsigned>(v); rt<int>(v); rt<unsigned long>(v); rt<long>(v); rt<unsigned long long>(v); rt<size_t>(v);
            bu32((unsigned)v); bu64(v, false); bu64(v, true); lt(v);
        } else if (c == "ct") {
            ctj<0>(std::make_index_sequence<64>()); ctj<1>(std::make_index_sequence<64>()); ctj<2>(std::make_index_sequence<64>()); ctj<3>(std::make_index_sequence<64>());
            cts(std::make_index_sequence<70>()); ct<~size_t(0)>(); ct<~size_t(0) - 1>(); ct<~size_t(0) / 3>(); ct<~size_t(0) / 3 * 2>(); ct<~size_t(0) / 5>();
        }
    }
    flush_trace();
    return 0;
}
