// Records the output of the library's random generators.  -DALG=MT19937_32|MT19937_64|LibcRandom
#include <jstd/system/RandomGen.h>
#include <fstream>
#include <sstream>
#include <new>
#include <type_traits>
#include "guard.hpp"
using namespace gd;
typedef jstd::ALG Alg;
typedef jstd::BasicRandomGenerator<Alg> Gen;
typedef Alg::value_type V;
static const int kV = sizeof(V) / 2;
#define STR1(x) #x
#define STR(x) STR1(x)

static std::string l16(uint64_t x, int n) {
    std::string r = "[";
    for (int i = 0; i < n; i++) { if (i) r += ","; r += std::to_string((unsigned)(x >> (16 * i) & 0xFFFF)); }
    return r + "]";
}
static std::string lst(const std::vector<uint64_t> & v, int n) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += l16(v[i], n); }
    return r + "]";
}
// generators live in storage that is overwritten before and after their life
struct Slot {
    alignas(64) unsigned char mem[sizeof(Alg) + 64]; bool live = false;
    Alg & g() { return *(Alg *)mem; }
    void wipe() { if (live) { g().~Alg(); live = false; } static unsigned char c = 0x35; c = (unsigned char)(c * 5 + 1); memset(mem, c, sizeof mem); }
};
static Slot slot[2];
static uint64_t hex(std::istream & s) { std::string h; s >> h; return strtoull(h.c_str(), 0, 16); }

template <class T> struct Keyed {
    template <class A> static void put(Slot & s, const std::string & form, uint64_t seed, const std::vector<V> & ks, A *) {
        const V * p = ks.data();
        if (form == "ctorp") { s.wipe(); new (s.mem) A(p, ks.size(), (V)seed); s.live = true; }
        else if (form == "ctorv") { s.wipe(); new (s.mem) A(ks, (V)seed); s.live = true; }
        else if (form == "srandp") ((A &)s.g()).srand(p, ks.size(), (V)seed);
        else ((A &)s.g()).srand(ks, (V)seed);
    }
};
template <> struct Keyed<jstd::LibcRandom> { template <class A> static void put(Slot &, const std::string &, uint64_t, const std::vector<V> &, A *) {} };

static uint64_t draw(int o, const std::string & fn) {
    if (o == 2) {
        if (fn == "rand") return Gen::rand();
        if (fn == "u32") return Gen::nextUInt32();
        if (fn == "i32") return (uint32_t)Gen::nextInt32();
        if (fn == "u64") return Gen::nextUInt64();
        if (fn == "i64") return (uint64_t)Gen::nextInt64();
        if (fn == "int") return (uint64_t)Gen::nextInt();
        return Gen::nextUInt();
    }
    Alg & g = slot[o].g();
    if (fn == "rand") return g.rand();
    if (fn == "u32") return g.nextUInt32();
    if (fn == "i32") return (uint32_t)g.nextInt32();
    if (fn == "u64") return g.nextUInt64();
    if (fn == "i64") return (uint64_t)g.nextInt64();
    if (fn == "int") return (uint64_t)g.nextInt();
    return g.nextUInt();
}
static int width(const std::string & fn) { return fn == "rand" ? kV : fn == "u32" || fn == "i32" ? 2 : 4; }
static const uint64_t SB = 1ull << 63;
// ranged functions; signed values are shifted to keep their order as unsigned numbers
static uint64_t ranged(const std::string & fn, int ar, uint64_t lo, uint64_t hi) {
    if (fn == "u32") return ar == 1 ? Gen::nextUInt32((uint32_t)hi) : Gen::nextUInt32((uint32_t)lo, (uint32_t)hi);
    if (fn == "u64") return ar == 1 ? Gen::nextUInt64((uint64_t)hi) : Gen::nextUInt64((uint64_t)lo, (uint64_t)hi);
    if (fn == "uint") return ar == 1 ? Gen::nextUInt((size_t)hi) : Gen::nextUInt((size_t)lo, (size_t)hi);
    int64_t a = (int64_t)(lo ^ SB), b = (int64_t)(hi ^ SB), r = 0;
    if (fn == "i32") r = ar == 1 ? Gen::nextInt32((int32_t)b) : Gen::nextInt32((int32_t)a, (int32_t)b);
    else if (fn == "i64") r = ar == 1 ? Gen::nextInt64(b) : Gen::nextInt64(a, b);
    else r = ar == 1 ? Gen::nextInt((intptr_t)b) : Gen::nextInt((intptr_t)a, (intptr_t)b);
    return (uint64_t)r ^ SB;
}
static uint64_t ord(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return u & SB ? ~u : u | SB; }
static double fl(const std::string & fn, int ar, double lo, double hi) {
    if (fn == "f") return ar == 0 ? Gen::nextFloat() : Gen::nextFloat((float)lo, (float)hi);
    if (fn == "d") return ar == 0 ? Gen::nextDouble() : Gen::nextDouble(lo, hi);
    return ar == 0 ? Gen::nextDouble53() : Gen::nextDouble53(lo, hi);
}
static void seed(int o, const std::string & form, uint64_t s) {
    if (o == 2) { if (form == "ctor") { Gen g((V)s); (void)g; } else Gen::srand((V)s); }
    else if (form == "ctor") { slot[o].wipe(); new (slot[o].mem) Alg((V)s); slot[o].live = true; }
    else slot[o].g().srand((V)s);
}
static std::string H(const char * op, int o) { return std::string("{\"op\":\"") + op + "\",\"o\":" + std::to_string(o); }

int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    std::ifstream in(argv[1]);
    install(fopen(argv[2], "w"));
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ls(line); std::string c; ls >> c;
        if (c.empty()) continue;
        op(c.c_str());
        if (c == "T") {
            flush_trace(); for (auto & s : slot) s.wipe();
            std::string nm; ls >> nm; emit("{\"op\":\"cfg\",\"trace\":\"" + nm + "\",\"alg\":\"" STR(ALG) "\",\"w\":" + std::to_string(8 * sizeof(V)) + "}");
        } else if (c == "seed") {                        // seed <o> <form> <s>
            int o; std::string f; ls >> o >> f; V s = (V)hex(ls);
            if (o < 2 && f != "ctor" && !slot[o].live) continue;
            seed(o, f, s); emit(H("seed", o) + ",\"s\":" + l16(s, kV) + "}");
        } else if (c == "keys") {                        // keys <o> <form> <s> <key>...
            int o; std::string f; ls >> o >> f; V s = (V)hex(ls); std::vector<V> ks; std::string h;
            while (ls >> h) ks.push_back((V)strtoull(h.c_str(), 0, 16));
            if (f[0] != 'c' && !slot[o].live) continue;
            Keyed<Alg>::put(slot[o], f, s, ks, (Alg *)nullptr);
            std::vector<uint64_t> kk(ks.begin(), ks.end());
            emit(H("keys", o) + ",\"s\":" + l16(s, kV) + ",\"ks\":" + lst(kk, kV) + "}");
        } else if (c == "copy") {                        // copy <o> <p> c|a|m: o becomes a copy of p; m: p ends
            int o, p; std::string f; ls >> o >> p >> f;
            if (!slot[p].live || o == p) continue;
            if (f == "a" && slot[o].live) slot[o].g() = slot[p].g();
            else { slot[o].wipe(); new (slot[o].mem) Alg((const Alg &)slot[p].g()); slot[o].live = true; }
            if (f == "m") slot[p].wipe();
            emit(H("copy", o) + ",\"p\":" + std::to_string(p) + "}");
        } else if (c == "draw") {                        // draw <o> <function> <count>
            int o, n; std::string f; ls >> o >> f >> n;
            if (o < 2 && !slot[o].live) continue;
            std::vector<uint64_t> v; for (int i = 0; i < n; i++) v.push_back(draw(o, f));
            emit(H("draw", o) + ",\"f\":\"" + f + "\",\"v\":" + lst(v, width(f)) + "}");
        } else if (c == "same") {                        // same <s> <function> <count>: twice from the same seed
            V s = (V)hex(ls); std::string f; int n; ls >> f >> n; std::vector<uint64_t> v[2];
            for (auto & x : v) { Gen::srand(s); for (int i = 0; i < n; i++) x.push_back(draw(2, f)); }
            emit(H("same", 2) + ",\"f\":\"" + f + "\",\"max\":" + l16(Gen::rand_max(), kV) + ",\"v\":" + lst(v[0], width(f)) + ",\"v2\":" + lst(v[1], width(f)) + "}");
        } else if (c == "rng") {                         // rng <function> <arity> <s> <lo> <hi> <count>
            std::string f; int ar, n; ls >> f >> ar; V s = (V)hex(ls); uint64_t lo = hex(ls), hi = hex(ls); ls >> n; std::vector<uint64_t> v[2];
            for (auto & x : v) { Gen::srand(s); for (int i = 0; i < n; i++) x.push_back(ranged(f, ar, lo, hi)); }
            emit(H("rng", 2) + ",\"f\":\"" + f + "\",\"ar\":" + std::to_string(ar) + ",\"lo\":" + l16(lo, 4) + ",\"hi\":" + l16(hi, 4) + ",\"v\":" + lst(v[0], 4) + ",\"v2\":" + lst(v[1], 4) + "}");
        } else if (c == "flt") {                         // flt <function> <arity> <s> <lo> <hi> <count>
            std::string f; int ar, n; ls >> f >> ar; V s = (V)hex(ls); double lo, hi; ls >> lo >> hi >> n; std::vector<uint64_t> v[2];
            for (auto & x : v) { Gen::srand(s); for (int i = 0; i < n; i++) x.push_back(ord(fl(f, ar, lo, hi))); }
            emit(H("flt", 2) + ",\"f\":\"" + f + "\",\"ar\":" + std::to_string(ar) + ",\"lo\":" + l16(ord(lo), 4) + ",\"hi\":" + l16(ord(hi), 4) + ",\"mid\":" + l16(ord(lo / 2 + hi / 2), 4)
                 + ",\"v\":" + lst(v[0], 4) + ",\"v2\":" + lst(v[1], 4) + "}");
        }
    }
    flush_trace();
    return 0;
}
