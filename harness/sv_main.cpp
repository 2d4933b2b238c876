// Records executions of jstd::basic_string_view<CharT>.  -DCT=<char type> [-DSTRING_UTILS_MODE=<0..3>]
#include <jstd/string/string_view.h>
#include <sstream>
#include <iostream>
#include <fstream>
#include <memory>
#include <algorithm>
#include "guard.hpp"
#ifndef CT
#define CT char
#endif
typedef CT C;
typedef std::make_unsigned<C>::type UC;
typedef jstd::basic_string_view<C> SV;
typedef std::basic_string<C> S;
using namespace gd;

static const int NR = 4;
static std::vector<std::unique_ptr<Buf>> bufs;          // every string of a trace has a buffer of its own
static std::vector<std::unique_ptr<std::basic_string<C>>> keep;
static std::vector<std::unique_ptr<std::vector<C>>> keepv;
static SV * reg[NR];
static size_t cap[NR];
static std::vector<long long> nums;       // the characters of the current command

static std::string chars(const C * p, size_t n) {
    std::string r = "[";
    for (size_t i = 0; i < n; i++) { if (i) r += ","; r += std::to_string((long long)(UC)p[i]); }
    return r + "]";
}
static std::string chars(const S & s) { return chars(s.data(), s.size()); }
static int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

// Put characters into a new buffer; everything around them is filled with garbage.
static C * put(const std::string & where, const std::vector<long long> & v, bool nul, bool room = false) {
    bufs.emplace_back(new Buf(1)); Buf & b = *bufs.back();
    b.fill((unsigned char)(0x61 + bufs.size() % 7));
    size_t off = where.size() > 1 ? (size_t)atoi(where.c_str() + 1) * sizeof(C) : 0;
    size_t bytes = (v.size() + (nul ? 1 : 0) + (room ? 64 : 0)) * sizeof(C);
    C * p = (C *)b.place(where[0], off, bytes);
    for (size_t i = 0; i < v.size(); i++) p[i] = (C)v[i];
    if (nul) p[v.size()] = C(0);
    b.snap();
    return p;
}
static int modified() { int m = 0; for (auto & b : bufs) m |= b->changed() ? 1 : 0; return m; }
static size_t count_of(const std::string & t) { return t == "n" ? SV::npos : t == "h" ? SV::npos - 1 : t == "m" ? SV::npos / 2 : (size_t)strtoull(t.c_str(), 0, 10); }
static std::string cnt_json(const std::string & t) { return (t == "n" || t == "h" || t == "m") ? "-1" : t; }
static size_t pos_of(const std::string & t) { return t == "h" ? SV::npos - 1 : t == "n" ? SV::npos : (size_t)strtoull(t.c_str(), 0, 10); }
static std::string pos_json(const std::string & t) { return (t == "n" || t == "h") ? "-2" : t; }

struct Ev { std::string s; Ev(const char * op) : s(std::string("{\"op\":\"") + op + "\"") {}
    Ev & i(const char * k, long long v) { s += std::string(",\"") + k + "\":" + num(v); return *this; }
    Ev & j(const char * k, const std::string & v) { s += std::string(",\"") + k + "\":" + v; return *this; }
    void done() { s += ",\"mod\":" + num(modified()) + "}"; emit(s); } };

template <class F> static int guarded(F f) {
    try { f(); return 0; } catch (const std::out_of_range &) { return 1; } catch (...) { return 2; }
}

int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    std::ifstream in(argv[1]);
    install(fopen(argv[2], "w"));
    for (auto & r : reg) r = new SV();
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ls(line);
        std::string c; ls >> c;
        if (c.empty()) continue;
        op(c.c_str());
        auto rest = [&]() { nums.clear(); long long x; while (ls >> x) nums.push_back(x); };
        if (c == "T") {
            flush_trace();
            std::string nm; ls >> nm;
            for (int i = 0; i < NR; i++) { delete reg[i]; reg[i] = new SV(); cap[i] = 0; }
            bufs.clear(); keep.clear(); keepv.clear();
            emit("{\"op\":\"cfg\",\"trace\":\"" + nm + "\"}");
        } else if (c == "new") {                        // new r how where chars...
            int r, how; std::string w; ls >> r >> how >> w; rest();
            SV & v = *reg[r];
            bool nul = how == 2 || how == 7 || how == 11;
            C * p = put(w, nums, nul, how == 12);
            size_t n = nums.size();
            cap[r] = how == 12 ? n + 60 : 0;
            keep.emplace_back(new S(p, n)); keepv.emplace_back(new std::vector<C>(p, p + n)); const S & ks = *keep.back();
            switch (how) {
                case 0: case 12: v = SV((const C *)p, n); break;
                case 1: v = SV((const C *)p, (const C *)(p + n)); break;
                case 2: v = SV((const C *)p); break;
                case 3: v = SV(ks); break;
                case 4: v = SV(*keepv.back()); break;
                case 5: v = SV(); break;
                case 6: v.attach((const C *)p, n); break;
                case 7: v = (const C *)p; break;
                case 8: v = ks; break;
                case 9: v.attach((const C *)p, (const C *)(p + n)); break;
                case 10: v.attach(ks); break;
                case 11: v.attach((const C *)p); break;
            }
            Ev("new").i("r", r).i("how", how).i("z", nul ? 1 : how == 5 ? 2 : 0).j("s", chars(p, n)).j("v", chars(v.data(), v.size())).done();
        } else if (c == "cp") {                         // cp r q how
            int r, q, how; ls >> r >> q >> how;
            if (how == 0) { SV t(*reg[q]); *reg[r] = t; } else if (how == 1) *reg[r] = *reg[q]; else reg[r]->attach(*reg[q]);
            cap[r] = 0;
            Ev("cp").i("r", r).i("q", q).j("v", chars(reg[r]->data(), reg[r]->size())).done();
        } else if (c == "sub") {                        // sub r q pos cnt
            int r, q; std::string p, n; ls >> r >> q >> p >> n;
            SV t; int th = guarded([&] { if (n == "d") t = reg[q]->substr(pos_of(p)); else t = reg[q]->substr(pos_of(p), count_of(n)); });
            if (!th) { *reg[r] = t; cap[r] = 0; }
            Ev("sub").i("r", r).i("q", q).j("pos", pos_json(p)).j("cnt", n == "d" ? "-1" : cnt_json(n)).i("th", th).j("v", chars(reg[r]->data(), reg[r]->size())).done();
        } else if (c == "swp") {                        // swp r q how
            int r, q, how; ls >> r >> q >> how;
            if (how == 0) reg[r]->swap(*reg[q]); else if (how == 1) std::swap(*reg[r], *reg[q]); else { using std::swap; swap(*reg[r], *reg[q]); }
            std::swap(cap[r], cap[q]);
            Ev("swp").i("r", r).i("q", q).j("v", chars(reg[r]->data(), reg[r]->size())).j("w", chars(reg[q]->data(), reg[q]->size())).done();
        } else if (c == "clr") {
            int r; ls >> r; reg[r]->clear(); cap[r] = 0;
            Ev("clr").i("r", r).j("v", chars(reg[r]->data(), reg[r]->size())).done();
        } else if (c == "app") {                        // app r how chars...   (only views that own room behind them)
            int r, how; ls >> r >> how; rest();
            SV & v = *reg[r];
            if (v.size() + nums.size() + 1 > cap[r]) continue;
            std::vector<C> t; for (auto x : nums) t.push_back((C)x);
            if (how == 2 && t.empty()) how = 0;
            if (how == 2) std::fill(t.begin(), t.end(), t[0]);
            C * a = t.data();
            switch (how) {
                case 0: v.append((const C *)a, t.size()); break;
                case 1: for (C x : t) v.push_back(x); break;
                case 2: v.append(t.size(), t[0]); break;
                case 3: v.append(SV::const_iterator(a), SV::const_iterator(a + t.size())); break;
                default: v.append((const C *)a, (const C *)(a + t.size()));
            }
            int nul = (v.read_last() == C(0) || (t.empty() && how == 1)) ? 1 : 0;
            for (auto & b : bufs) b->snap();
            Ev("app").i("r", r).j("s", chars(t.data(), t.size())).i("nul", nul).j("v", chars(v.data(), v.size())).done();
        } else if (c == "cmp") {                        // cmp r q
            int r, q; ls >> r >> q; const SV & a = *reg[r]; const SV & b = *reg[q];
            S bs; if (b.size()) bs.assign(b.data(), b.size());
            size_t m = std::min(a.size(), b.size());
            Ev e("cmp"); e.i("r", r).i("q", q);
            e.i("eq", a == b).i("ne", a != b).i("lt", a < b).i("le", a <= b).i("gt", a > b).i("ge", a >= b);
            e.i("c", sgn(a.compare(b))).i("ie", a.is_equal(b)).i("cs", sgn(a.compare(bs))).i("is", a.is_equal(bs));
            e.i("c4", sgn(a.compare(a.data(), a.size(), b.data(), b.size()))).i("i4", a.is_equal(a.data(), a.size(), b.data(), b.size()));
            e.i("c3", m ? sgn(a.compare(a.data(), b.data(), m)) : 0).i("i3", m ? a.is_equal(a.data(), b.data(), m) : 1).done();
        } else if (c == "cst") {                        // cst r where chars...: against a C string
            int r; std::string w; ls >> r >> w; rest(); const SV & a = *reg[r];
            C * p = put(w, nums, true);
            Ev("cst").i("r", r).j("s", chars(p, nums.size())).i("c", sgn(a.compare((const C *)p))).i("ie", a.is_equal((const C *)p)).done();
        } else if (c == "cc") {                         // cc w1 n1 chars1.. chars2..: C string against C string (traits)
            std::string w; size_t n1; ls >> w >> n1; rest();
            if (n1 > nums.size()) n1 = nums.size();
            std::vector<long long> x(nums.begin(), nums.begin() + n1), y(nums.begin() + n1, nums.end());
            C * p = put(w, x, true); C * s = put(w, y, true);
            typedef SV::traits_type TR;
            Ev("cc").j("s", chars(p, x.size())).j("t", chars(s, y.size())).i("c", sgn(TR::compare((const C *)p, (const C *)s))).i("ie", TR::is_equal((const C *)p, (const C *)s)).done();
        } else if (c == "p2") {                         // p2 r pos cnt q
            int r, q; std::string p, n; ls >> r >> p >> n >> q; int cc = 9, ie = 9;
            const SV & a = *reg[r];
            int th = guarded([&] { cc = sgn(a.compare(pos_of(p), count_of(n), *reg[q])); });
            int t2 = guarded([&] { ie = a.is_equal(pos_of(p), count_of(n), *reg[q]); });
            Ev("p2").i("r", r).i("q", q).j("pos", pos_json(p)).j("cnt", cnt_json(n)).i("th", th).i("t2", t2).i("c", cc).i("ie", ie).done();
        } else if (c == "p4") {                         // p4 r pos cnt q pos2 cnt2
            int r, q; std::string p, n, p2, n2; ls >> r >> p >> n >> q >> p2 >> n2; int cc = 9, ie = 9;
            const SV & a = *reg[r];
            int th = guarded([&] { cc = sgn(a.compare(pos_of(p), count_of(n), *reg[q], pos_of(p2), count_of(n2))); });
            int t2 = guarded([&] { ie = a.is_equal(pos_of(p), count_of(n), *reg[q], pos_of(p2), count_of(n2)); });
            Ev("p4").i("r", r).i("q", q).j("pos", pos_json(p)).j("cnt", cnt_json(n)).j("pos2", pos_json(p2)).j("cnt2", cnt_json(n2)).i("th", th).i("t2", t2).i("c", cc).i("ie", ie).done();
        } else if (c == "pc") {                         // pc r pos cnt where chars...: part against a C string
            int r; std::string p, n, w; ls >> r >> p >> n >> w; rest(); int cc = 9, ie = 9;
            const SV & a = *reg[r]; C * s = put(w, nums, true);
            int th = guarded([&] { cc = sgn(a.compare(pos_of(p), count_of(n), (const C *)s)); });
            int t2 = guarded([&] { ie = a.is_equal(pos_of(p), count_of(n), (const C *)s); });
            Ev("pc").i("r", r).j("s", chars(s, nums.size())).j("pos", pos_json(p)).j("cnt", cnt_json(n)).i("th", th).i("t2", t2).i("c", cc).i("ie", ie).done();
        } else if (c == "pn") {                         // pn r pos cnt n2 where chars...: part against the first n2 characters (n2 <= number of chars, no NUL in them)
            int r; std::string p, n, w; size_t n2; ls >> r >> p >> n >> n2 >> w; rest(); int cc = 9, ie = 9;
            const SV & a = *reg[r]; C * s = put(w, nums, false);
            if (n2 > nums.size()) n2 = nums.size();
            int th = guarded([&] { cc = sgn(a.compare(pos_of(p), count_of(n), (const C *)s, n2)); });
            int t2 = guarded([&] { ie = a.is_equal(pos_of(p), count_of(n), (const C *)s, n2); });
            Ev("pn").i("r", r).j("s", chars(s, n2)).j("pos", pos_json(p)).j("cnt", cnt_json(n)).i("th", th).i("t2", t2).i("c", cc).i("ie", ie).done();
        } else if (c == "copy") {                       // copy r pos cnt
            int r; std::string p, n; ls >> r >> p >> n; const SV & a = *reg[r];
            size_t room = a.size() + 8; std::vector<C> d(room + 8, (C)0x5c); size_t ret = 0;
            C * dst = d.data() + 4;
            int th = guarded([&] { ret = n == "d" ? a.copy(dst, room, pos_of(p)) : p == "d" ? a.copy(dst, count_of(n)) : a.copy(dst, count_of(n), pos_of(p)); });
            size_t k = std::min(ret, room);
            int clean = 1;
            for (size_t i = 0; i < 4; i++) if (d[i] != (C)0x5c) clean = 0;
            for (size_t i = 4 + (th ? 0 : k); i < d.size(); i++) if (d[i] != (C)0x5c) clean = 0;
            Ev("copy").i("r", r).j("pos", p == "d" ? "0" : pos_json(p)).j("cnt", n == "d" ? "-1" : cnt_json(n)).i("th", th).i("ret", (long long)ret).i("clean", clean).j("d", chars(dst, th ? 0 : k)).done();
        } else if (c == "at") {                         // at r pos
            int r; std::string p; ls >> r >> p; const SV & a = *reg[r]; SV & m = *reg[r]; long long x = -1, y = -1;
            int th = guarded([&] { x = (long long)(UC)a.at(pos_of(p)); });
            int t2 = guarded([&] { y = (long long)(UC)m.at(pos_of(p)); });
            long long z = -1, z2 = -1; if (!th) { z = (UC)a[pos_of(p)]; z2 = (UC)m[pos_of(p)]; }
            Ev("at").i("r", r).j("pos", pos_json(p)).i("th", th).i("t2", t2).i("x", x).i("y", y).i("z", z).i("z2", z2).done();
        } else if (c == "obs") {                        // obs r: everything that shows the contents
            int r; ls >> r; const SV & a = *reg[r];
            Ev e("obs"); e.i("r", r).i("size", a.size()).i("length", a.length()).i("empty", a.empty());
            if (a.size()) e.i("front", (UC)a.front()).i("back", (UC)a.back()); else e.i("front", -1).i("back", -1);
            std::vector<C> f, g, h, b, k;
            for (auto it = a.begin(); it != a.end(); ++it) f.push_back(*it);
            for (auto it = a.cbegin(); it != a.cend(); ) g.push_back(*it++);
            for (auto it = a.end(); it != a.begin(); ) { --it; b.push_back(*it); }
            for (auto it = a.cend(); it != a.cbegin(); ) { it--; k.push_back(*it); }
            for (auto ch : a) h.push_back(ch);
            e.j("f", chars(f.data(), f.size())).j("g", chars(g.data(), g.size())).j("h", chars(h.data(), h.size())).j("b", chars(b.data(), b.size())).j("k", chars(k.data(), k.size()));
            int ra = 1; ptrdiff_t n = a.size();
            if (a.end() - a.begin() != n || a.cend() - a.cbegin() != n) ra = 0;
            for (ptrdiff_t i = 0; i < n; i++) {
                auto it = a.begin() + i; auto ct = a.cbegin() + i; auto e2 = a.end(); e2 -= (n - i); auto e3 = a.cend() - (n - i);
                if (*it != f[i] || *ct != f[i] || a.begin()[i] != f[i] || a.cbegin()[i] != f[i] || !(e2 == it) || !(e3 == ct) || (it - a.begin()) != i) ra = 0;
                if (!(it < a.end()) || !(a.end() > it) || !(it <= a.end()) || !(a.end() >= it) || (it < a.begin()) || (it > a.end()) || it != e2) ra = 0;
                if (!(ct < a.cend()) || !(a.cend() > ct) || !(ct <= a.cend()) || !(a.cend() >= ct) || (ct < a.cbegin()) || ct != e3) ra = 0;
            }
            e.i("ra", ra).j("str", chars(a.size() ? a.to_string() : S()));
#ifndef NOSTREAM
            std::basic_ostringstream<C> os; os << a; e.j("out", chars(os.str()));
#else
            e.j("out", chars(a.size() ? a.to_string() : S()));
#endif
            e.j("v", chars(a.data(), a.size())).done();
        }
    }
    flush_trace();
    return 0;
}
