// Records operations on large maps; element number x has key key_of(x) and value x + d.
// -DMAPK=1|2|3 -DKV=1|2|3 -DHK=0|1
#if MAPK == 1
#include <jstd/hashmap/group15_flat_map.hpp>
#define MAPT jstd::group15_flat_map
#elif MAPK == 2
#include <jstd/hashmap/group16_flat_map.hpp>
#define MAPT jstd::group16_flat_map
#else
#include <jstd/hashmap/robin_hash_map.h>
#define MAPT jstd::robin_hash_map
#endif
#include <algorithm>
#include <fstream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include "guard.hpp"
using namespace gd;

// numbers to keys: a bijection of 32 bits
static int perm = 0;
static const uint32_t MUL = 2654435761u;
static uint32_t inv_mul() { uint32_t i = MUL; for (int k = 0; k < 5; k++) i *= 2 - MUL * i; return i; }
static uint32_t enc(uint32_t x) { switch (perm) { case 1: return x << 3 | x >> 29; case 2: return x * MUL; case 3: return x << 16 | x >> 16; case 4: return ~x; default: return x; } }
static uint32_t dec(uint32_t k) { static const uint32_t I = inv_mul(); switch (perm) { case 1: return k >> 3 | k << 29; case 2: return k * I; case 3: return k << 16 | k >> 16; case 4: return ~k; default: return k; } }

template <class T> struct Cv;
template <> struct Cv<int> { static int mk(uint32_t x) { return (int)x; } static uint32_t id(const int & x) { return (uint32_t)x; } };
template <> struct Cv<size_t> { static size_t mk(uint32_t x) { return (size_t)x * 0x100000001ull; } static uint32_t id(const size_t & x) { return (x >> 32) == (x & 0xFFFFFFFF) ? (uint32_t)x : 4000000000u; } };
template <> struct Cv<std::string> {
    static std::string mk(uint32_t x) { return (x & 3 ? "k" : "a key of more than sixteen characters ") + std::to_string(x); }
    static uint32_t id(const std::string & s) { size_t p = s.rfind(s[0] == 'k' && s.size() < 13 ? 'k' : ' '); if (p == std::string::npos) return 4000000000u; uint32_t x = (uint32_t)strtoul(s.c_str() + p + 1, 0, 10); return mk(x) == s ? x : 4000000000u; }
};
#if KV == 1
typedef int K; typedef int V;
#elif KV == 2
typedef std::string K; typedef std::string V;
#else
typedef size_t K; typedef std::string V;
#endif
static uint64_t cluster = 1, spread = 1;                // keys of a cluster share their hash value
#if HK == 0
typedef std::hash<K> H;
#elif HK == 2
struct H { typedef size_t result_type; size_t operator()(const K & k) const { return (size_t)(dec(Cv<K>::id(k)) / cluster * spread); } };
#else
struct H { typedef size_t result_type; size_t operator()(const K & k) const { size_t h = std::hash<K>()(k); h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; return h ^ (h >> 32); } };
#endif
typedef MAPT<K, V, H> Map;
static std::unique_ptr<Map> m[4];
static K key(uint32_t x) { return Cv<K>::mk(enc(x)); }
static V val(uint32_t x) { return Cv<V>::mk(x); }

struct Runs {
    std::vector<std::pair<long long, long long>> e;      // number, value
    void add(const K & k, const V & v) { e.push_back({(long long)dec(Cv<K>::id(k)), (long long)Cv<V>::id(v)}); }
    std::string str() {
        std::sort(e.begin(), e.end()); std::string r = "["; long long a = 0, b = 0, d = 0; bool open = false; size_t shown = 0;
        auto close = [&] { if (!open || ++shown > 4000) return; if (r.size() > 1) r += ","; r += "[" + num(a) + "," + num(b) + "," + num(d) + "]"; };
        for (auto & p : e) {
            long long x = std::min<long long>(p.first, 2000000000), dd = std::max<long long>(-2000000, std::min<long long>(2000000, p.second - p.first));
            if (open && x == b && dd == d) { b++; continue; }
            close(); a = x; b = x + 1; d = dd; open = true;
        }
        close(); return r + "]";
    }
};
int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    std::ifstream in(argv[1]);
    install(fopen(argv[2], "w"));
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ls(line); std::string c; ls >> c;
        if (c.empty()) continue;
        std::string f; size_t q = c.find(':'); if (q != std::string::npos) { f = c.substr(q + 1); c = c.substr(0, q); }
        op(c.c_str());
        if (c == "T") {
            flush_trace(); for (auto & p : m) p.reset();
            std::string nm; ls >> nm >> perm >> cluster >> spread; emit("{\"op\":\"cfg\",\"trace\":\"" + nm + "\",\"kind\":" + std::to_string(MAPK) + "}");
            continue;
        }
        long long g[4] = {0, 0, 0, 0}; int o = 0; ls >> o; for (auto & x : g) if (!(ls >> x)) break;
        uint32_t a = (uint32_t)g[0], b = (uint32_t)g[1], d = (uint32_t)g[2]; int p = (int)g[0];
        bool two = c == "cpy" || c == "mov" || c == "casg" || c == "masg" || c == "swp";
        if (c != "new" && !(c == "cpy" || c == "mov" ? true : (bool)m[o])) continue;
        if (two && !m[p]) continue;
        std::string e = "{\"op\":\"" + c + "\",\"f\":\"" + f + "\",\"o\":" + std::to_string(o); long long r = 0; bool th = false;
        // visit the numbers of [a, b) upwards, downwards, or scattered
        uint32_t n = b - a; auto each = [&](auto && fn) { for (uint32_t j = 0; j < n; j++) fn(d & 1 ? b - 1 - j : d & 2 && n % 7919 ? a + (uint32_t)((uint64_t)j * 7919 % n) : a + j); };
        try {
            if (c == "new") { m[o].reset(g[0] ? new Map((size_t)g[0]) : new Map()); }
            else if (c == "ins") {
                if (f == "a") each([&](uint32_t x) { (*m[o])[key(x)] = val(x + d); r++; });
                else if (f == "s") each([&](uint32_t x) { r += m[o]->insert_or_assign(key(x), val(x + d)).second; });
                else if (f == "t") each([&](uint32_t x) { r += m[o]->try_emplace(key(x), val(x + d)).second; });
                else if (f == "i") each([&](uint32_t x) { r += m[o]->insert(std::make_pair(key(x), val(x + d))).second; });
                else if (f == "r") { std::vector<std::pair<K, V>> v; each([&](uint32_t x) { v.emplace_back(key(x), val(x + d)); }); size_t s = m[o]->size(); m[o]->insert(v.begin(), v.end()); r = (long long)(m[o]->size() - s); }
                else each([&](uint32_t x) { auto z = m[o]->emplace(key(x), val(x + d)); r += z.second && z.first->first == key(x); });
            } else if (c == "era") { each([&](uint32_t x) { r += (long long)m[o]->erase(key(x)); }); }
            else if (c == "erl") {                       // loop with erase(iterator)
                for (auto it = m[o]->begin(); it != m[o]->end(); ) { uint32_t x = dec(Cv<K>::id(it->first)); r++; if (x >= a && x < b) it = m[o]->erase(it); else ++it; }
            } else if (c == "fnd") {
                Runs R; for (uint32_t x = a; x < b; x++) { K k = key(x); auto it = m[o]->find(k); if (it != m[o]->end()) { R.add(it->first, it->second); r += it->first == k; } else if (m[o]->contains(k) || m[o]->count(k)) r += 1000000000; }
                e += ",\"R\":" + R.str();
            } else if (c == "dmp") {
                Runs R; for (auto it = m[o]->begin(); it != m[o]->end(); ++it) { R.add(it->first, it->second); r++; }
                long long r2 = 0; const Map & cm = *m[o]; for (auto it = cm.cbegin(); it != cm.cend(); ++it) r2++;
                e += ",\"r2\":" + num(r2) + ",\"R\":" + R.str();
            } else if (c == "clr") m[o]->clear();
            else if (c == "rsv") m[o]->reserve((size_t)g[0]);
            else if (c == "reh") m[o]->rehash((size_t)g[0]);
            else if (c == "shr") m[o]->shrink_to_fit();
            else if (c == "del") m[o].reset();
            else if (c == "cpy") m[o].reset(new Map(*m[p]));
            else if (c == "mov") m[o].reset(new Map(std::move(*m[p])));
            else if (c == "casg") *m[o] = *m[p];
            else if (c == "masg") *m[o] = std::move(*m[p]);
            else if (c == "swp") m[o]->swap(*m[p]);
            else continue;
        } catch (const std::exception &) { th = true; }
        e += ",\"p\":" + std::to_string(two ? p : 0) + ",\"a\":" + num(g[0]) + ",\"b\":" + num(g[1]) + ",\"d\":" + num(d) + ",\"r\":" + num(std::min<long long>(r, 2000000000)) + ",\"th\":" + (th ? "1" : "0");
        const Map * q2 = m[o].get();
        e += ",\"sz\":" + num(q2 ? (long long)q2->size() : -1) + ",\"psz\":" + num(two && m[p] ? (long long)m[p]->size() : -1) + ",\"bc\":" + num(q2 ? (long long)q2->bucket_count() : -1)
           + ",\"ml\":" + num(q2 ? (long long)(q2->max_load_factor() * 1000 + 0.5) : 0) + ",\"lf\":" + num(q2 ? (long long)(q2->load_factor() * 1000 + 0.5) : 0);
        emit(e + "}");
    }
    flush_trace();
    return 0;
}
