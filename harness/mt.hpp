// Script-driven tracing harness for the hash maps of jstd_hashmap.
//
// The harness executes an operation script against real map objects and records, for each
// operation, its arguments, its results and a projection of the observable state. It never judges:
// the judge is the TLA+ specification (spec/HashMap.tla), fed with the recorded events.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstddef>
#include <climits>
#include <cassert>
#include <stdexcept>
#include <string>
#include <vector>
#include <memory>
#include <map>
#include <list>
#include <iterator>
#include <unordered_map>
#include <unordered_set>
#include <new>
#include <utility>
#include <tuple>
#include <functional>
#include <initializer_list>
#include <type_traits>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
#endif

namespace mt {

// ------------------------------------------------------------------ output
struct Out {
    std::string buf;
    FILE * f = nullptr;
    bool first = true;
    void open(const char * path) { f = std::fopen(path, "w"); if (!f) { perror(path); std::exit(3); } buf.reserve(1 << 22); }
    void begin() { buf.clear(); buf += "["; first = true; }
    void raw(const std::string & s) { if (!first) buf += ","; first = false; buf += s; }
    void end() { buf += "]\n"; std::fwrite(buf.data(), 1, buf.size(), f); std::fflush(f); buf.clear(); }
};
inline Out & out() { static Out o; return o; }

struct Ev {
    std::string s;
    explicit Ev(const char * op) { s.reserve(160); s = "{\"op\":\""; s += op; s += "\""; }
    Ev & i(const char * k, long long v) { s += ",\""; s += k; s += "\":"; s += std::to_string(v); return *this; }
    Ev & t(const char * k, const std::string & v) { s += ",\""; s += k; s += "\":\""; s += v; s += "\""; return *this; }
    Ev & l(const char * k, const std::vector<long long> & v) {
        s += ",\""; s += k; s += "\":[";
        for (size_t n = 0; n < v.size(); n++) { if (n) s += ","; s += std::to_string(v[n]); }
        s += "]"; return *this;
    }
    std::string str() const { return s + "}"; }
};

// ------------------------------------------------------------------ instrumented environment
struct Boom {};                     // the injected exception
struct UnknownForm {};              // a script asked for an insertion form this configuration does not have

struct Env {
    long countdown = -1;            // injected fault: throw at the n-th throwing point
    bool fired = false;
    bool armed = false;
    long points = 0;                // throwing points passed in the current operation
    long stamp = 0;                 // objects constructed from a value, numbered
    int mask = 3;                   // classes of throwing points that count: 1 element, 2 allocator, 4 hasher, 8 equality, 16 predicate
    const char * at = "none"; int at_o = -1;   // operation under way (for the crash event)
    long live_k = 0, live_v = 0;    // live tracked objects
    long life_err = 0;              // construct-over-live, destroy-dead, use-of-dead
    long func_err = 0;              // a hasher or equality object called after it was moved from
    long alloc_blocks = 0, alloc_bytes = 0, alloc_err = 0, nalloc = 0;
    std::unordered_map<const void *, int> live;       // registry of live tracked objects
    std::unordered_map<const void *, std::pair<size_t,int>> blocks;  // allocator blocks: size, owner tag
    // controllable hash
    long hA = 0, hS = 0, hB = 1, hC = 1, hD = 0; int hmode = 0;
    std::unordered_map<long, std::uint64_t> htab;
    void reset() {
        countdown = -1; fired = false; armed = false; stamp = 0; hmode = 0; htab.clear(); life_err = 0; func_err = 0; alloc_err = 0; mask = 3; live_k = live_v = 0; live.clear(); alloc_blocks = alloc_bytes = 0; blocks.clear();
    }
    void point(int cls) {
        if (!armed || !(mask & cls)) return;
        ++points;
        if (countdown > 0 && --countdown == 0) { fired = true; armed = false; throw Boom(); }
    }
    std::uint64_t hash(long id) {
        auto it = htab.find(id);
        if (it != htab.end()) return it->second;
        std::uint64_t u = (std::uint64_t)id;
        switch (hmode) {
        case 0: return u;
        case 1: return (std::uint64_t)hD;
        case 2: return ((u % (std::uint64_t)hA) << hS) | (((u / (std::uint64_t)hA) % (std::uint64_t)hB) * (std::uint64_t)hC + (std::uint64_t)hD);
        case 4: return (u % (std::uint64_t)hA) * (std::uint64_t)hC;
        default: { u += 0x9e3779b97f4a7c15ull; u = (u ^ (u >> 30)) * 0xbf58476d1ce4e5b9ull; u = (u ^ (u >> 27)) * 0x94d049bb133111ebull; return u ^ (u >> 31); }
        }
    }
};
inline Env & env() { static Env e; return e; }

struct Quiet {      // suspend fault injection for the harness's own use of instrumented types
    bool a; Quiet() : a(env().armed) { env().armed = false; } ~Quiet() { env().armed = a; }
};

struct Id { long v; };              // something keys and values are implicitly made from
// Tracked objects: every constructor/destructor is checked against the registry of live objects.
enum { TAG_K = 1, TAG_V = 2 };
template <int TAG>
struct Tracked {
    long id;
    long birth = 0;                 // the number of the object this one was copied or moved from
    const Tracked * self;
    static constexpr long MOVED = -7777777;
    static void chk(const Tracked & o) { auto & e = env(); auto it = e.live.find(&o); if (it == e.live.end() || it->second != TAG || o.self != &o) e.life_err++; }
    void born() { auto & e = env(); if (!e.live.emplace(this, TAG).second) e.life_err++; (TAG == TAG_K ? e.live_k : e.live_v)++; self = this; if (birth == 0) birth = ++e.stamp; }
    Tracked() : id(0) { env().point(1); born(); }
    explicit Tracked(long i) : id(i) { env().point(1); born(); }
    Tracked(Id i) : id(i.v) { env().point(1); born(); }
    Tracked(long a, long b) : id(a + b) { env().point(1); born(); }
    Tracked(const Tracked & o) : id((chk(o), o.id)), birth(o.birth) { env().point(1); born(); }
    Tracked(Tracked && o) noexcept : id((chk(o), o.id)), birth(o.birth) { born(); o.id = MOVED; }
    Tracked & operator=(const Tracked & o) { chk(o); chk(*this); env().point(1); id = o.id; birth = o.birth; return *this; }
    Tracked & operator=(Tracked && o) noexcept { chk(o); chk(*this); long t = o.id; o.id = MOVED; id = t; birth = o.birth; return *this; }
    ~Tracked() { auto & e = env(); auto it = e.live.find(this); if (it == e.live.end() || it->second != TAG || self != this) { e.life_err++; } else e.live.erase(it); (TAG == TAG_K ? e.live_k : e.live_v)--; self = nullptr; id = -9999; }
    friend bool operator==(const Tracked & a, const Tracked & b) { chk(a); chk(b); env().point(8); return a.id == b.id; }
};
typedef Tracked<TAG_K> TK;
typedef Tracked<TAG_V> TV;

// Move-only tracked value.
struct MV : TV {
    MV() : TV() {}
    explicit MV(long i) : TV(i) {}
    MV(Id i) : TV(i) {}
    MV(long a, long b) : TV(a, b) {}
    MV(const MV &) = delete; MV(MV &&) noexcept = default;
    MV & operator=(const MV &) = delete; MV & operator=(MV &&) noexcept = default;
};

// The same in 8 bytes (the robin map stores elements of that size in place).
template <int TAG>
struct Small {
    int id; unsigned magic;
    static constexpr int MOVED = -7777777;
    static constexpr unsigned MAGIC = 0x5ca1ab1eu + TAG;
    static void chk(const Small & o) { auto & e = env(); auto it = e.live.find(&o); if (it == e.live.end() || it->second != TAG + 2 || o.magic != MAGIC) e.life_err++; }
    void born() { auto & e = env(); if (!e.live.emplace(this, TAG + 2).second) e.life_err++; (TAG == TAG_K ? e.live_k : e.live_v)++; magic = MAGIC; }
    Small() : id(0) { env().point(1); born(); }
    explicit Small(long i) : id((int)i) { env().point(1); born(); }
    Small(Id i) : id((int)i.v) { env().point(1); born(); }
    Small(long a, long b) : id((int)(a + b)) { env().point(1); born(); }
    Small(const Small & o) : id((chk(o), o.id)) { env().point(1); born(); }
    Small(Small && o) noexcept : id((chk(o), o.id)) { born(); o.id = MOVED; }
    Small & operator=(const Small & o) { chk(o); chk(*this); env().point(1); id = o.id; return *this; }
    Small & operator=(Small && o) noexcept { chk(o); chk(*this); int t = o.id; o.id = MOVED; id = t; return *this; }
    ~Small() { auto & e = env(); auto it = e.live.find(this); if (it == e.live.end() || it->second != TAG + 2 || magic != MAGIC) { e.life_err++; } else e.live.erase(it); (TAG == TAG_K ? e.live_k : e.live_v)--; magic = 0; id = -9999; }
    friend bool operator==(const Small & a, const Small & b) { chk(a); chk(b); env().point(8); return a.id == b.id; }
};
typedef Small<TAG_K> SK;
typedef Small<TAG_V> SV;
struct SMV : SV {
    SMV() : SV() {}
    explicit SMV(long i) : SV(i) {}
    SMV(Id i) : SV(i) {}
    SMV(long a, long b) : SV(a, b) {}
    SMV(const SMV &) = delete; SMV(SMV &&) noexcept = default;
    SMV & operator=(const SMV &) = delete; SMV & operator=(SMV &&) noexcept = default;
};

// Trivially copyable, larger than two words.
struct Big { long long a; long long b[7]; };
inline bool operator==(const Big & x, const Big & y) { return x.a == y.a; }

// ------------------------------------------------------------------ id <-> key / value conversions
template <typename T> struct Conv;
template <> struct Conv<int> { static int mk(long i) { return (int)i; } static long id(int x) { return x; } static constexpr bool movable = false; };
template <> struct Conv<std::size_t> { static std::size_t mk(long i) { return (std::size_t)i; } static long id(std::size_t x) { return (x > 2000000000u) ? 2000000000 : (long)x; } static constexpr bool movable = false; };
template <> struct Conv<std::string> {
    static std::string mk(long i) { std::string s = "k" + std::to_string(i); if (i % 3 == 0) s += std::string("#........................................"); return s; }
    static long id(const std::string & s) { if (s.empty()) return 0; if (s[0] != 'k') return -5555; long v = std::atol(s.c_str() + 1); return mk(v) == s ? v : -5556; }
    static constexpr bool movable = true;
};
template <> struct Conv<Big> {
    static Big mk(long i) { Big b; b.a = i; for (int n = 0; n < 7; n++) b.b[n] = i * 31 + n; return b; }
    static long id(const Big & b) { for (int n = 0; n < 7; n++) if (b.b[n] != (b.a == 0 && b.b[0] == 0 ? 0 : b.a * 31 + n)) return -5557; return (long)b.a; }
    static constexpr bool movable = false;
};
template <> struct Conv<TK> { static TK mk(long i) { return TK(i); } static long id(const TK & x) { TK::chk(x); return x.id; } static constexpr bool movable = true; };
template <> struct Conv<TV> { static TV mk(long i) { return TV(i); } static long id(const TV & x) { TV::chk(x); return x.id; } static constexpr bool movable = true; };
template <> struct Conv<MV> { static MV mk(long i) { return MV(i); } static long id(const MV & x) { TV::chk(x); return x.id; } static constexpr bool movable = true; };

template <> struct Conv<SK> { static SK mk(long i) { return SK(i); } static long id(const SK & x) { SK::chk(x); return x.id; } static constexpr bool movable = true; };
template <> struct Conv<SV> { static SV mk(long i) { return SV(i); } static long id(const SV & x) { SV::chk(x); return x.id; } static constexpr bool movable = true; };
template <> struct Conv<SMV> { static SMV mk(long i) { return SMV(i); } static long id(const SMV & x) { SV::chk(x); return x.id; } static constexpr bool movable = true; };

// 64-bit integers whose low halves are all equal for small ids; pointers; enumerations; views; over-aligned values.
template <> struct Conv<std::int64_t> {
    static std::int64_t mk(long i) { std::uint64_t u = (std::uint64_t)i; return (std::int64_t)((u << 33) | (u >> 31)); }
    static long id(std::int64_t x) { std::uint64_t u = (std::uint64_t)x; return (long)((u >> 33) | (u << 31)); }
    static constexpr bool movable = false;
};
template <> struct Conv<const char *> {
    static const char * mk(long i) { return (const char *)(std::uintptr_t)(i * 64); }
    static long id(const char * x) { return (long)((std::uintptr_t)x / 64); }
    static constexpr bool movable = false;
};
enum class En : std::int64_t { zero = 0 };
template <> struct Conv<En> { static En mk(long i) { return (En)-i; } static long id(En x) { return -(long)x; } static constexpr bool movable = false; };
template <> struct Conv<std::string_view> {
    static std::string_view mk(long i) {
        static std::unordered_map<long, std::string> keep; auto it = keep.find(i);
        if (it == keep.end()) it = keep.emplace(i, Conv<std::string>::mk(i)).first;
        return it->second;
    }
    static long id(std::string_view s) { return s.empty() ? 0 : Conv<std::string>::id(std::string(s)); }
    static constexpr bool movable = false;
};
struct alignas(64) Al {
    long v; const Al * self;
    void born() { self = this; if ((std::uintptr_t)this % 64) env().life_err++; }
    Al() : v(0) { born(); }
    explicit Al(long i) : v(i) { born(); }
    Al(const Al & o) : v(id(o)) { born(); }
    Al & operator=(const Al & o) { v = id(o); if (self != this) env().life_err++; return *this; }
    ~Al() { if (self != this) env().life_err++; self = nullptr; }
    static long id(const Al & x) { return x.self == &x ? x.v : -5558; }
};
inline bool operator==(const Al & a, const Al & b) { return a.v == b.v; }
template <> struct Conv<Al> { static Al mk(long i) { return Al(i); } static long id(const Al & x) { return Al::id(x); } static constexpr bool movable = false; };
typedef std::unique_ptr<int> UP;
template <> struct Conv<UP> { static UP mk(long i) { return UP(new int((int)i)); } static long id(const UP & x) { return x ? *x : 0; } static constexpr bool movable = true; };

template <typename T> struct is_tracked : std::integral_constant<bool, std::is_same<T, TK>::value || std::is_same<T, TV>::value || std::is_same<T, MV>::value || std::is_same<T, SK>::value || std::is_same<T, SV>::value || std::is_same<T, SMV>::value> {};

// A value of another type from which a key or value is implicitly made.
template <typename T> struct Alt { typedef Id type; static Id mk(long i) { return Id{i}; } };
template <> struct Alt<int> { typedef long type; static long mk(long i) { return i; } };
template <> struct Alt<std::size_t> { typedef int type; static int mk(long i) { return (int)i; } };
template <> struct Alt<Big> { typedef Big type; static Big mk(long i) { return Conv<Big>::mk(i); } };
template <> struct Alt<std::string> { typedef const char * type; static const char * mk(long i) { static std::unordered_map<long, std::string> keep; auto it = keep.find(i); if (it == keep.end()) it = keep.emplace(i, Conv<std::string>::mk(i)).first; return it->second.c_str(); } };

template <> struct Alt<std::int64_t> { typedef std::int64_t type; static type mk(long i) { return Conv<type>::mk(i); } };
template <> struct Alt<const char *> { typedef const char * type; static type mk(long i) { return Conv<type>::mk(i); } };
template <> struct Alt<En> { typedef En type; static type mk(long i) { return Conv<type>::mk(i); } };
template <> struct Alt<std::string_view> { typedef const char * type; static type mk(long i) { return Conv<std::string_view>::mk(i).data(); } };
template <> struct Alt<Al> { typedef Al type; static type mk(long i) { return Al(i); } };
struct UPMaker { int v; operator UP() const { return UP(new int(v)); } };
template <> struct Alt<UP> { typedef UPMaker type; static type mk(long i) { return UPMaker{(int)i}; } };

// ------------------------------------------------------------------ functors
// Controllable hasher: the hash of a key id is what the script says. `tag` is the functor's state.
// Functors may own something (std::function does): once moved from, they are not to be called.
struct Functor {
    int tag = 0;
    bool gone = false;
    Functor() = default;
    explicit Functor(int t) : tag(t) {}
    Functor(const Functor &) = default;
    Functor(Functor && o) noexcept : tag(o.tag), gone(o.gone) { o.gone = true; }
    Functor & operator=(const Functor &) = default;
    Functor & operator=(Functor && o) noexcept { if (this != &o) { tag = o.tag; gone = o.gone; o.gone = true; } return *this; }
    void use() const { if (gone) env().func_err++; }
};
template <typename K, bool AV>
struct CtlHashBase : Functor {
    typedef std::size_t result_type;
    CtlHashBase() = default;
    explicit CtlHashBase(int t) : Functor(t) {}
    std::size_t operator()(const K & k) const { use(); env().point(4); Quiet q; return (std::size_t)(env().hash(Conv<K>::id(k)) ^ ((std::uint64_t)this->tag * 0x9e3779b97f4a7c15ull)); }
};
template <typename K> struct CtlHash : CtlHashBase<K, true> { using CtlHashBase<K, true>::CtlHashBase; typedef void is_avalanching; };
template <typename K> struct CtlHashNA : CtlHashBase<K, false> { using CtlHashBase<K, false>::CtlHashBase; };
// Hashers that return something narrower than size_t (one of them a signed number).
inline std::size_t fold(std::size_t x) { return x ^ (x >> 33); }
template <typename K> struct Hash32 { std::uint32_t operator()(const K & k) const { return (std::uint32_t)(fold(std::hash<K>()(k)) * 0x9e3779b1u); } };
template <typename K> struct HashInt { typedef void is_avalanching; int operator()(const K & k) const { return -(int)(fold(std::hash<K>()(k)) * 0x85ebca6bu); } };
// Equality modulo `mod` when mod > 0 (a coarser equivalence), else plain.
template <typename K>
struct CtlEq : Functor {
    CtlEq() = default;
    explicit CtlEq(int t) : Functor(t) {}
    bool operator()(const K & a, const K & b) const { use(); env().point(8); Quiet q; return Conv<K>::id(a) == Conv<K>::id(b); }
};

// Counting, stateful allocator.
template <typename T, bool EQ, bool PROP = false>
struct CountAlloc {
    typedef T value_type;
    typedef std::integral_constant<bool, EQ> is_always_equal;
    typedef std::integral_constant<bool, PROP> propagate_on_container_copy_assignment;
    typedef std::integral_constant<bool, PROP> propagate_on_container_move_assignment;
    typedef std::integral_constant<bool, PROP> propagate_on_container_swap;
    int tag = 0;
    CountAlloc() = default;
    explicit CountAlloc(int t) : tag(t) {}
    template <typename U> CountAlloc(const CountAlloc<U, EQ, PROP> & o) : tag(o.tag) {}
    template <typename U> struct rebind { typedef CountAlloc<U, EQ, PROP> other; };
    T * allocate(std::size_t n) {
        auto & e = env();
        e.point(2);
        Quiet q;
        if (n > (std::size_t(1) << 40) / sizeof(T)) throw std::bad_alloc();
        T * p = static_cast<T *>(alignof(T) > 16 ? ::operator new(n * sizeof(T), std::align_val_t(alignof(T))) : ::operator new(n * sizeof(T)));
        e.blocks[p] = { n * sizeof(T), EQ ? 0 : tag };
        e.alloc_blocks++; e.nalloc++; e.alloc_bytes += (long)(n * sizeof(T));
        std::memset((void *)p, 0xA5, n * sizeof(T));
        return p;
    }
    void deallocate(T * p, std::size_t n) {
        auto & e = env();
        auto it = e.blocks.find(p);
        if (it == e.blocks.end()) { e.alloc_err++; return; }
        if (it->second.first != n * sizeof(T) || it->second.second != (EQ ? 0 : tag)) e.alloc_err++;
        e.alloc_blocks--; e.alloc_bytes -= (long)it->second.first;
        std::memset((void *)p, 0xDD, it->second.first);
        e.blocks.erase(it);
        if (alignof(T) > 16) ::operator delete((void *)p, std::align_val_t(alignof(T))); else ::operator delete((void *)p);
    }
    template <typename U> friend bool operator==(const CountAlloc & a, const CountAlloc<U, EQ, PROP> & b) { return EQ || a.tag == b.tag; }
    template <typename U> friend bool operator!=(const CountAlloc & a, const CountAlloc<U, EQ, PROP> & b) { return !(a == b); }
};

// ------------------------------------------------------------------ crash containment
inline void on_signal(int sig) {
    // The trace so far is in out().buf; append a terminal event and leave.
    static char tail[192];
    int n = std::snprintf(tail, sizeof tail, "%s{\"op\":\"crash\",\"sig\":%d,\"at\":\"%s\",\"o\":%d}]\n", out().first ? "" : ",", sig, env().at, env().at_o);
    FILE * f = out().f;
    if (f) {
        int fd = fileno(f);
        const std::string & b = out().buf;
        size_t off = 0;
        while (off < b.size()) { ssize_t w = ::write(fd, b.data() + off, b.size() - off); if (w <= 0) break; off += (size_t)w; }
        if (::write(fd, tail, (size_t)n) < 0) _exit(98);
    }
    _exit(97);
}
inline void arm_timer(int secs) {
    struct itimerval tv; std::memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &tv, nullptr);
}
inline void install() {
    static char stk[1 << 16];
    stack_t ss; ss.ss_sp = stk; ss.ss_size = sizeof stk; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGPROF };
    for (int s : sigs) sigaction(s, &sa, nullptr);
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback([] { on_signal(999); });
#else
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)3 << 30; setrlimit(RLIMIT_AS, &rl);
#endif
}

// ------------------------------------------------------------------ the driver
// A single-pass iterator: all copies share one position; dereferencing gives an rvalue copy.
template <typename It> struct SinglePass {
    typedef std::input_iterator_tag iterator_category; typedef typename std::iterator_traits<It>::value_type value_type;
    typedef std::ptrdiff_t difference_type; typedef value_type * pointer; typedef value_type reference;
    std::shared_ptr<It> p;
    reference operator*() const { return **p; }
    SinglePass & operator++() { ++*p; return *this; }
    SinglePass operator++(int) { SinglePass t = *this; ++*p; return t; }
    friend bool operator==(const SinglePass & a, const SinglePass & b) { return *a.p == *b.p; }
    friend bool operator!=(const SinglePass & a, const SinglePass & b) { return !(a == b); }
};
template <typename It> SinglePass<It> single_pass(It it) { SinglePass<It> s; s.p = std::make_shared<It>(it); return s; }

struct Op { std::string name, how; std::vector<long> a; long inject = 0; };

template <typename Cfg>
struct Driver {
    typedef typename Cfg::map_type M;
    typedef typename Cfg::K K;
    typedef typename Cfg::V V;
    typedef typename M::value_type value_type;
    typedef typename M::iterator iterator;
    typedef typename M::const_iterator const_iterator;
    static constexpr int NOBJ = 4;
    std::unique_ptr<M> obj[NOBJ];
    std::unordered_map<const void *, int> addr;

    int addr_id(const void * p) { Quiet q; auto it = addr.find(p); if (it != addr.end()) return it->second; int n = (int)addr.size() + 1; addr[p] = n; return n; }
    static long kid(const K & k) { Quiet q; return Conv<K>::id(k); }
    static long vid(const V & v) { Quiet q; return Conv<V>::id(v); }

    // map construction with the configuration's functors/allocator
    static typename M::allocator_type alloc_no(int a) {
        if constexpr (Cfg::alloc_stateful) return typename M::allocator_type(a); else { (void)a; return typename M::allocator_type(); }
    }
    static long alloc_tag(const M & m) { if constexpr (Cfg::alloc_stateful) return m.get_allocator().tag; else { (void)m; return 0; } }
    static std::unique_ptr<M> make(int aid, long cap, long tag) {
        (void)tag; (void)aid;
        if constexpr (Cfg::alloc_stateful) {
            if constexpr (Cfg::stateful) return std::unique_ptr<M>(new M((std::size_t)(cap < 0 ? 0 : cap), typename M::hasher((int)tag), typename M::key_equal((int)tag), alloc_no(aid)));
            else return std::unique_ptr<M>(new M((std::size_t)(cap < 0 ? 0 : cap), typename M::hasher(), typename M::key_equal(), alloc_no(aid)));
        }
        if (cap < 0 && tag == 0) return std::unique_ptr<M>(new M());
        if constexpr (Cfg::stateful) {
            return std::unique_ptr<M>(new M((std::size_t)(cap < 0 ? 0 : cap), typename M::hasher((int)tag), typename M::key_equal((int)tag)));
        } else return std::unique_ptr<M>(new M((std::size_t)(cap < 0 ? 0 : cap)));
    }

    void post(Ev & e, int o, bool th) {
        Quiet q;
        M * m = (o >= 0 && o < NOBJ) ? obj[o].get() : nullptr;
        e.i("sz", m ? (long)m->size() : -1);
        e.i("em", m ? (m->empty() ? 1 : 0) : -1);
        e.i("bc", m ? (long long)std::min<size_t>(m->bucket_count(), 2000000000u) : -1);
        e.i("ml", m ? (long)(m->max_load_factor() * 1000.0f + 0.5f) : -1);
        auto & v = env();
        e.i("lk", is_tracked<K>::value ? v.live_k : -99999).i("lv", is_tracked<V>::value ? v.live_v : -99999);
        e.i("le", v.life_err).i("fe", v.func_err);
        e.i("ab", Cfg::counting ? v.alloc_blocks : -99999).i("ae", v.alloc_err);
        e.i("na", Cfg::counting ? v.nalloc : -99999);
        e.i("th", th ? 1 : 0);
        // an element's home position is its key modulo the number of buckets
        if (Cfg::kind == 3 && Cfg::identity_hash && v.hmode == 0 && v.htab.empty() && m && Cfg::stateful_tag(*m) == 0) e.i("ih", 1);
    }

    void dump(int o, Ev & e) {
        Quiet q;
        std::vector<long long> ks, vs, as, kt;
        M * m = obj[o].get();
        size_t guard = m->size() + 8;
        for (auto it = m->begin(); it != m->end() && guard > 0; ++it, --guard) {
            if constexpr (std::is_same<K, TK>::value) kt.push_back(it->first.birth);
            ks.push_back(kid(it->first)); vs.push_back(vid(it->second)); as.push_back(addr_id(&it->second));
        }
        e.l("ks", ks).l("vs", vs).l("as", as).l("kt", kt);
    }
    // What the iterator an operation returned goes on to visit (`tl`) and the whole traversal (`wl`),
    // on small maps, for a sample of the keys.
    template <typename Map, typename It>
    void tail(Ev & e, Map & m, long ki, It it) {
        Quiet q;
        size_t n = m.size();
        if (n > 40 || (((unsigned long)ki * 2654435761ul + n * 40503ul) >> 7) % 3 != 0) return;
        std::vector<long long> tl, wl;
        size_t guard = n + 8;
        for (auto x = m.begin(); x != m.end() && guard > 0; ++x, --guard) wl.push_back(kid(x->first));
        guard = n + 8;
        for (; it != m.end() && guard > 0; ++it, --guard) tl.push_back(kid(it->first));
        e.l("tl", tl).l("wl", wl);
    }
    void cdump(int o, Ev & e) {
        Quiet q;
        std::vector<long long> ks, vs;
        const M * m = obj[o].get();
        size_t guard = m->size() + 8;
        for (auto it = m->begin(); it != m->end() && guard > 0; it++, --guard) { ks.push_back(kid((*it).first)); vs.push_back(vid((*it).second)); }
        std::vector<long long> k2;
        guard = m->size() + 8;
        for (auto it = obj[o]->cbegin(); it != obj[o]->cend() && guard > 0; ++it, --guard) k2.push_back(kid(it->first));
        e.l("ks", ks).l("vs", vs).l("k2", k2);
    }

    void it_res(Ev & e, iterator it, M & m) {
        Quiet q;
        if (it == m.end()) e.i("rk", -1).i("rv", -1);
        else e.i("rk", kid(it->first)).i("rv", vid(it->second));
    }

    template <typename P> static std::pair<K, V> kv_copy(const P & p) { return std::pair<K, V>(p.first, p.second); }

    // ---- single insertion forms. Returns (iterator, inserted) where inserted = -1 if the form does not say.
    std::pair<iterator, int> do_insert(M & m, const std::string & h, long ki, long vi, int & ka, int & va) {
        typedef std::pair<iterator, int> R;
        auto rr = [](std::pair<iterator, bool> p) { return R(p.first, p.second ? 1 : 0); };
        auto hh = [](iterator i) { return R(i, -1); };
        constexpr bool cp = std::is_copy_constructible<V>::value;
        // arguments (constructed outside the fault window)
        std::unique_ptr<K> k; std::unique_ptr<V> v; std::unique_ptr<std::pair<K, V>> p; std::unique_ptr<value_type> cv;
        struct Fin { std::unique_ptr<K> & k; std::unique_ptr<V> & v; std::unique_ptr<std::pair<K, V>> & p; std::unique_ptr<value_type> & cv; long ki, vi; int & ka; int & va;
            ~Fin() { Quiet q; ka = 1; va = 1;
                if (k) ka = (Conv<K>::id(*k) == ki); if (v) va = (Conv<V>::id(*v) == vi);
                if (p) { ka = (Conv<K>::id(p->first) == ki); va = (Conv<V>::id(p->second) == vi); }
                if (cv) { ka = (Conv<K>::id(cv->first) == ki); va = (Conv<V>::id(cv->second) == vi); } } } fin{k, v, p, cv, ki, vi, ka, va};
        auto mkkv = [&] { Quiet q; k.reset(new K(Conv<K>::mk(ki))); v.reset(new V(Conv<V>::mk(vi))); };
        auto mkp = [&] { Quiet q; p.reset(new std::pair<K, V>(Conv<K>::mk(ki), Conv<V>::mk(vi))); };
        auto mkcv = [&] { Quiet q; cv.reset(new value_type(Conv<K>::mk(ki), Conv<V>::mk(vi))); };
        (void)cp;
        if (h == "rv") { mkcv(); return rr(m.insert(std::move(*cv))); }
        if (h == "pr") { mkp(); return rr(m.insert(std::move(*p))); }
        if (h == "ekr") { mkkv(); return rr(m.emplace(std::move(*k), std::move(*v))); }
        if (h == "epr") { mkp(); return rr(m.emplace(std::move(*p))); }
        if (h == "epwr") { mkkv(); return rr(m.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(*k)), std::forward_as_tuple(std::move(*v)))); }
        if (h == "tr") { mkkv(); return rr(m.try_emplace(std::move(*k), std::move(*v))); }
        if (h == "hrv") { mkcv(); return hh(m.insert(m.begin(), std::move(*cv))); }
        if (h == "hpr") { mkp(); return hh(m.insert(m.cbegin(), std::move(*p))); }
        if (h == "ehr") { mkkv(); return hh(m.emplace_hint(m.cbegin(), std::move(*k), std::move(*v))); }
        if constexpr (Cfg::F::try_hint) if (h == "thr") { mkkv(); return hh(m.try_emplace(m.begin(), std::move(*k), std::move(*v))); }
        if constexpr (Cfg::F::ioa) {
            if (h == "ar") { mkkv(); return rr(m.insert_or_assign(std::move(*k), std::move(*v))); }
            if constexpr (Cfg::F::ioa_hint) if (h == "ahr") { mkkv(); return hh(m.insert_or_assign(m.begin(), std::move(*k), std::move(*v))); }
        }
        {   // arguments of other types the key and the value are made from; several arguments for the value
            typedef typename Alt<K>::type XK; typedef typename Alt<V>::type XV;
            XK ak = [&] { Quiet q; return Alt<K>::mk(ki); }(); XV av = [&] { Quiet q; return Alt<V>::mk(vi); }();
            if constexpr (std::is_same<XV, V>::value) { } else {
                if (h == "pcv") return rr(m.insert(std::pair<XK, XV>(ak, av)));
                if (h == "pcl") { std::pair<XK, XV> p2(ak, av); return rr(m.insert(p2)); }
                if (h == "hpc") return hh(m.insert(m.cbegin(), std::pair<XK, XV>(ak, av)));
                if (h == "epcx") return rr(m.emplace(std::pair<XK, XV>(ak, av)));
                if (h == "tx") return rr(m.try_emplace(ak, av));
                if constexpr (Cfg::F::try_hint) if (h == "thx") return hh(m.try_emplace(m.cbegin(), ak, av));
                if (h == "ax") return rr(m.insert_or_assign(ak, av));
                if constexpr (Cfg::F::ioa_hint) if (h == "ahx") return hh(m.insert_or_assign(m.cbegin(), ak, av));
                if (h == "akx") { mkkv(); return rr(m.insert_or_assign(*k, av)); }
            }
            if (h == "ekx") return rr(m.emplace(ak, av));
            if (h == "ehx") return hh(m.emplace_hint(m.cend(), ak, av));
            if (h == "epwx") return rr(m.emplace(std::piecewise_construct, std::forward_as_tuple(ak), std::forward_as_tuple(av)));
            if constexpr (is_tracked<V>::value) {
                if (h == "tm") { mkkv(); return rr(m.try_emplace(*k, vi - 1, 1L)); }
                if (h == "tmr") { mkkv(); return rr(m.try_emplace(std::move(*k), vi - 1, 1L)); }
                if (h == "ekm") { mkkv(); return rr(m.emplace(*k, vi - 1, 1L)); }
                if (h == "ekmr") { mkkv(); return rr(m.emplace(std::move(*k), vi - 1, 1L)); }
                if (h == "epm") { mkkv(); return rr(m.emplace(std::piecewise_construct, std::forward_as_tuple(*k), std::forward_as_tuple(vi - 1, 1L))); }
            }
            if constexpr (Cfg::kind == 3) {
                if constexpr (cp) if (h == "ali") { mkcv(); const value_type & r = *cv; return rr(m.insert_always(r)); }
                if (h == "alr") { mkcv(); return rr(m.insert_always(std::move(*cv))); }
            }
        }
        if constexpr (cp) {
            if (h == "cl") { mkcv(); const value_type & r = *cv; return rr(m.insert(r)); }
            if (h == "ll") { mkcv(); return rr(m.insert(*cv)); }
            if (h == "pl") { mkp(); return rr(m.insert(*p)); }
            if (h == "pc") { mkp(); const std::pair<K, V> & r = *p; return rr(m.insert(r)); }
            if (h == "hcl") { mkcv(); const value_type & r = *cv; return hh(m.insert(m.cbegin(), r)); }
            if (h == "ekv") { mkkv(); return rr(m.emplace(*k, *v)); }
            if (h == "ekc") { mkkv(); const K & kk = *k; const V & vv = *v; return rr(m.emplace(kk, vv)); }
            if (h == "epl") { mkp(); return rr(m.emplace(*p)); }
            if (h == "epc") { mkp(); const std::pair<K, V> & r = *p; return rr(m.emplace(r)); }
            if (h == "epw") { mkkv(); return rr(m.emplace(std::piecewise_construct, std::forward_as_tuple(*k), std::forward_as_tuple(*v))); }
            if (h == "eh") { mkkv(); return hh(m.emplace_hint(m.cbegin(), *k, *v)); }
            if (h == "tc") { mkkv(); const K & kk = *k; const V & vv = *v; return rr(m.try_emplace(kk, vv)); }
            if (h == "tl") { mkkv(); return rr(m.try_emplace(*k, *v)); }
            if constexpr (Cfg::F::try_hint) if (h == "th") { mkkv(); const K & kk = *k; return hh(m.try_emplace(m.begin(), kk, *v)); }
            if constexpr (Cfg::F::ioa) {
                if (h == "ac") { mkkv(); const K & kk = *k; const V & vv = *v; return rr(m.insert_or_assign(kk, vv)); }
                if (h == "al") { mkkv(); return rr(m.insert_or_assign(*k, *v)); }
                if constexpr (Cfg::F::ioa_hint) if (h == "ah") { mkkv(); const K & kk = *k; return hh(m.insert_or_assign(m.cbegin(), kk, *v)); }
            }
        }
        throw UnknownForm();
    }

    static bool known(const std::string & h) { static const char * a[] = {"rv","pr","ekr","epr","epwr","tr","hrv","hpr","ehr"}; for (auto x : a) if (h == x) return true; return false; }

    void step(const Op & op) {
        auto & env_ = env();
        const std::string & n = op.name;
        auto A = [&](size_t i) { return op.a.at(i); };
        int o = op.a.empty() ? -1 : (int)A(0);
        env_.fired = false; env_.points = 0;
        bool need_obj = !(n == "new" || n == "newr" || n == "newil" || n == "cpy" || n == "mov" || n == "hm" || n == "ht" || n == "cpya" || n == "mova" || n == "newrc" || n == "newm");
        if (n == "hm") { env_.hmode = (int)A(0); if (op.a.size() > 1) env_.hA = A(1); if (op.a.size() > 2) env_.hS = A(2); if (op.a.size() > 3) env_.hB = A(3); if (op.a.size() > 4) env_.hC = A(4); if (op.a.size() > 5) env_.hD = A(5); if (env_.hA < 1) env_.hA = 1; if (env_.hB < 1) env_.hB = 1; return; }
        if (n == "ht") { env_.htab[A(0)] = ((std::uint64_t)A(1) << 32) | (std::uint64_t)(std::uint32_t)A(2); return; }
        if (n == "fm") { env_.mask = (int)A(0); return; }
        if (o < 0 || o >= NOBJ) throw std::logic_error("bad object in script");
        if (need_obj && !obj[o]) return;        // generator noise: object not alive, nothing happens
        bool th = false;
        Ev e(n.c_str());
        { static char nm[32]; std::snprintf(nm, sizeof nm, "%s", n.c_str()); env_.at = nm; env_.at_o = o; }
        env_.nalloc = 0;
        auto guarded = [&](auto && f) {
            env_.countdown = op.inject; env_.armed = op.inject > 0;
            try { f(); } catch (const Boom &) { th = true; } catch (const std::bad_alloc &) { th = true; env_.fired = true; e.i("oom", 1); } catch (...) { th = true; e.i("alien", 1); }
            env_.armed = false;
        };
        constexpr bool cp = std::is_copy_constructible<V>::value;

        if (n == "new") {
            if (obj[o]) return;
            int aid = op.a.size() > 3 ? (int)A(3) : o + 1;      // the allocator the map is given
            long tag = (op.a.size() > 2 && Cfg::stateful) ? A(2) : 0; bool dflt = false; size_t cap = (size_t)(A(1) < 0 ? 0 : A(1));
            (void)cap;
            guarded([&] {
                auto al = alloc_no(aid);
                if (op.how == "a") { dflt = true; obj[o].reset(new M(al)); }
                else if constexpr (Cfg::kind != 3) {
                    if (op.how == "ca") { dflt = true; obj[o].reset(new M(cap, al)); }
                    else if (op.how == "cha") { dflt = true; obj[o].reset(new M(cap, typename M::hasher(), al)); }
                    else obj[o] = make(aid, A(1), tag);
                } else obj[o] = make(aid, A(1), tag); });
            if (dflt) tag = 0;
            e.i("o", o).i("c", A(1)).i("aa", aid).i("tag", tag);
        } else if (n == "newr" || n == "insr" || n == "newrc") {
            // newr/insr: <o> k v k v ...      newrc: <o> <capacity> <tag> <allocator> k v k v ...
            if constexpr (cp) {
                bool mk = n != "insr"; size_t a0 = n == "newrc" ? 4 : 1;
                if (mk == (bool)obj[o]) return;
                std::vector<std::pair<K, V>> vec; std::vector<long long> ks, vs;
                for (size_t i = a0; i + 1 < op.a.size(); i += 2) { vec.emplace_back(Conv<K>::mk(A(i)), Conv<V>::mk(A(i + 1))); ks.push_back(A(i)); vs.push_back(A(i + 1)); }
                long tag = 0; int aid = 0;
                const std::string & h = op.how;
                if (n == "newrc") {        // every constructor from a range
                    tag = Cfg::stateful ? A(2) : 0; aid = (int)A(3); size_t cap = (size_t)A(1);
                    auto al = alloc_no(aid);
                    auto hs = [&] { if constexpr (Cfg::stateful) return typename M::hasher((int)tag); else return typename M::hasher(); };
                    auto eq = [&] { if constexpr (Cfg::stateful) return typename M::key_equal((int)tag); else return typename M::key_equal(); };
                    bool used = true;
                    guarded([&] {
                        if (h == "c") { used = false; obj[o].reset(new M(vec.begin(), vec.end(), cap)); tag = 0; }
                        else if (h == "che") { used = false; obj[o].reset(new M(vec.begin(), vec.end(), cap, hs(), eq())); }
                        else if (h == "ca") { tag = 0; obj[o].reset(new M(vec.begin(), vec.end(), cap, al)); }
                        else if (h == "cha") { auto f = hs(); obj[o].reset(new M(vec.begin(), vec.end(), cap, f, al)); if (tag) tag = -1; }
                        else obj[o].reset(new M(vec.begin(), vec.end(), cap, hs(), eq(), al));
                    });
                    if (!used) aid = 0;
                } else guarded([&] {
                    if (h == "l") { std::list<std::pair<K, V>> c; { Quiet q; c.assign(vec.begin(), vec.end()); } if (mk) obj[o].reset(new M(c.begin(), c.end())); else obj[o]->insert(c.begin(), c.end()); }
                    else if (h == "i") { auto b = single_pass(vec.begin()), z = single_pass(vec.end()); if (mk) obj[o].reset(new M(b, z)); else obj[o]->insert(b, z); }
                    else if (h == "m") { auto b = std::make_move_iterator(vec.begin()), z = std::make_move_iterator(vec.end()); if (mk) obj[o].reset(new M(b, z)); else obj[o]->insert(b, z); }
                    else if (h == "v") { std::vector<value_type> c; { Quiet q; c.reserve(vec.size()); for (auto & x : vec) c.emplace_back(x.first, x.second); } if (mk) obj[o].reset(new M(c.begin(), c.end())); else obj[o]->insert(c.begin(), c.end()); }
                    else { const auto & cv = vec; if (mk) obj[o].reset(new M(cv.begin(), cv.end())); else obj[o]->insert(vec.begin(), vec.end()); }
                });
                int intact = 1; if (h != "m") for (size_t i = 0; i < vec.size(); i++) if (kid(vec[i].first) != ks[i] || vid(vec[i].second) != vs[i]) intact = 0;
                e.i("o", o).l("ks", ks).l("vs", vs).i("ka", intact).i("tag", tag).i("aa", aid);
            } else return;
        } else if (n == "newm" || n == "insm") {       // from the elements of another map
            if constexpr (cp) {
                int p = (int)A(1); if ((n == "newm") == (bool)obj[o] || !obj[p]) return;
                std::vector<long long> ks, vs;
                { Quiet q; size_t g = obj[p]->size() + 8; for (auto it = obj[p]->begin(); it != obj[p]->end() && g > 0; ++it, --g) { ks.push_back(kid(it->first)); vs.push_back(vid(it->second)); } }
                guarded([&] { const M & c = *obj[p];
                    if (n == "newm") { if (op.how == "c") obj[o].reset(new M(c.begin(), c.end())); else obj[o].reset(new M(obj[p]->begin(), obj[p]->end())); }
                    else { if (op.how == "c") obj[o]->insert(c.begin(), c.end()); else obj[o]->insert(obj[p]->begin(), obj[p]->end()); } });
                e.i("o", o).l("ks", ks).l("vs", vs).i("ka", 1).i("tag", 0).i("aa", 0);
            } else return;
        } else if (n == "newil" || n == "insil" || n == "ilasg") {
            if constexpr (cp && Cfg::F::il) {
                if ((n == "newil") == (bool)obj[o]) return;
                std::vector<long long> ks{A(1), A(3), A(5)}, vs{A(2), A(4), A(6)};
                // newil:<constructor> <o> k v k v k v <capacity> <tag> <allocator>
                long tag = 0; int aid = 0; size_t cap = op.a.size() > 7 ? (size_t)A(7) : 0; const std::string & h = op.how;
                if (n == "newil" && op.a.size() > 9) { aid = (int)A(9); tag = Cfg::stateful ? A(8) : 0; }
                auto al = alloc_no(aid);
                auto hs = [&] { if constexpr (Cfg::stateful) return typename M::hasher((int)tag); else return typename M::hasher(); };
                auto eq = [&] { if constexpr (Cfg::stateful) return typename M::key_equal((int)tag); else return typename M::key_equal(); };
                guarded([&] {
                    std::initializer_list<value_type> il = { value_type(Conv<K>::mk(ks[0]), Conv<V>::mk(vs[0])), value_type(Conv<K>::mk(ks[1]), Conv<V>::mk(vs[1])), value_type(Conv<K>::mk(ks[2]), Conv<V>::mk(vs[2])) };
                    if (n == "newil" && h == "a") { tag = 0; obj[o].reset(new M(il, al)); }
                    else if (n == "newil" && h == "ca") { tag = 0; obj[o].reset(new M(il, cap, al)); }
                    else if (n == "newil" && h == "cha") { auto f = hs(); obj[o].reset(new M(il, cap, f, al)); if (tag) tag = -1; }
                    else if (n == "newil" && h == "chea") obj[o].reset(new M(il, cap, hs(), eq(), al));
                    else if (n == "newil") { tag = 0; aid = 0; if (h == "c") obj[o].reset(new M(il, cap)); else obj[o].reset(new M(il)); } else if (n == "insil") obj[o]->insert(il); else *obj[o] = il;
                });
                e.i("o", o).l("ks", ks).l("vs", vs).i("ka", 1).i("tag", tag).i("aa", aid);
            } else return;
        } else if (n == "cpy" || n == "cpya") {
            if constexpr (cp && Cfg::F::copy) {
                int p = (int)A(1); if (obj[o] || !obj[p]) return;
                int aid = op.a.size() > 2 ? (int)A(2) : o + 1;
                guarded([&] { const M & src = *obj[p]; if (n == "cpy") obj[o].reset(new M(src)); else obj[o].reset(new M(src, alloc_no(aid))); });
                e.i("o", o).i("p", p).i("aa", aid);
            } else return;
        } else if (n == "mov" || n == "mova") {
            if constexpr (Cfg::F::move) {
                int p = (int)A(1); if (obj[o] || !obj[p]) return;
                int aid = op.a.size() > 2 ? (int)A(2) : o + 1;
                guarded([&] { if (n == "mov") obj[o].reset(new M(std::move(*obj[p]))); else obj[o].reset(new M(std::move(*obj[p]), alloc_no(aid))); });
                e.i("o", o).i("p", p).i("aa", aid).i("psz", (long)obj[p]->size());
            } else return;
        } else if (n == "casg") {
            if constexpr (cp && Cfg::F::casg) {
                int p = (int)A(1); if (!obj[p]) return;
                guarded([&] { const M & src = *obj[p]; *obj[o] = src; });
                e.i("o", o).i("p", p);
            } else return;
        } else if (n == "masg") {
            if constexpr (Cfg::F::masg) {
                int p = (int)A(1); if (!obj[p] || p == o) return;
                guarded([&] { *obj[o] = std::move(*obj[p]); });
                e.i("o", o).i("p", p).i("psz", (long)obj[p]->size());
            } else return;
        } else if (n == "swp") {
            int p = (int)A(1); if (!obj[p]) return;
            if (Cfg::alloc_stateful && !Cfg::alloc_prop && alloc_tag(*obj[o]) != alloc_tag(*obj[p])) return;
            guarded([&] { if (op.how == "adl") { using std::swap; swap(*obj[o], *obj[p]); } else if (op.how == "std") std::swap(*obj[o], *obj[p]); else obj[o]->swap(*obj[p]); });
            e.i("o", o).i("p", p).i("psz", (long)obj[p]->size());
        } else if (n == "del") {
            guarded([&] { obj[o].reset(); });
            e.i("o", o);
        } else if (n == "ins") {
            int ka = 1, va = 1; std::pair<iterator, int> r; bool have = false; bool unk = false;
            guarded([&] {
                try { r = do_insert(*obj[o], op.how, A(1), A(2), ka, va); have = true; }
                catch (const UnknownForm &) { unk = true; }
            });
            if (unk) return;
            e.i("o", o).t("h", op.how).i("k", A(1)).i("v", A(2)).i("r", have ? r.second : -1);
            if (have) { it_res(e, r.first, *obj[o]); tail(e, *obj[o], A(1), r.first); } else e.i("rk", -1).i("rv", -1);
            e.i("ka", ka).i("va", va);
        } else if (n == "idx") {           // value of m[k] (inserts a value-initialised one when absent)
            long rv = -1; int ka = 1;
            { std::unique_ptr<K> k(new K(Conv<K>::mk(A(1))));
              guarded([&] { V & v = (op.how == "r") ? (*obj[o])[std::move(*k)] : (*obj[o])[*k]; rv = vid(v); });
              if (op.how != "r") ka = (kid(*k) == A(1)); }
            e.i("o", o).i("k", A(1)).i("rv", rv).i("ka", ka);
        } else if (n == "idxs") {          // m[k] = v
            int ka = 1;
            { std::unique_ptr<K> k(new K(Conv<K>::mk(A(1)))); std::unique_ptr<V> v(new V(Conv<V>::mk(A(2))));
              guarded([&] { V & r = (op.how == "r") ? (*obj[o])[std::move(*k)] : (*obj[o])[*k]; Quiet q; r = std::move(*v); });
              if (op.how != "r") ka = (kid(*k) == A(1)); }
            e.i("o", o).i("k", A(1)).i("v", A(2)).i("ka", ka);
        } else if (n == "find" || n == "cfind") {
            long rk = -1, rv = -1; int f = -1;
            iterator it1; typename M::const_iterator it2; int got = 0;
            if (op.how == "x") guarded([&] { auto ak = Alt<K>::mk(A(1));
                if (n == "find") { auto it = obj[o]->find(ak); Quiet q; it1 = it; got = 1; f = !(it == obj[o]->end()); if (f) { rk = kid(it->first); rv = vid(it->second); } }
                else { const M & c = *obj[o]; auto it = c.find(ak); Quiet q; it2 = it; got = 2; f = (it != c.end()); if (f) { rk = kid((*it).first); rv = vid((*it).second); } } });
            else if (op.how == "r") { if constexpr (Cfg::kind == 3) { std::unique_ptr<K> k(new K(Conv<K>::mk(A(1))));
              guarded([&] {      // equal_range
                if (n == "find") { auto pr = obj[o]->equal_range(*k); Quiet q; it1 = pr.first; got = 1; f = (int)std::distance(pr.first, pr.second); if (f == 1) { rk = kid(pr.first->first); rv = vid(pr.first->second); } else if (!(pr.first == pr.second)) f = 99; }
                else { const M & c = *obj[o]; auto pr = c.equal_range(*k); Quiet q; it2 = pr.first; got = 2; f = (int)std::distance(pr.first, pr.second); if (f == 1) { rk = kid(pr.first->first); rv = vid(pr.first->second); } else if (!(pr.first == pr.second)) f = 99; }
              }); } else return; }
            else { std::unique_ptr<K> k(new K(Conv<K>::mk(A(1))));
              guarded([&] {
                if (n == "find") { auto it = obj[o]->find(*k); Quiet q; it1 = it; got = 1; f = !(it == obj[o]->end()); if (f) { rk = kid(it->first); rv = vid(it->second); } }
                else { const M & c = *obj[o]; auto it = c.find(*k); Quiet q; it2 = it; got = 2; f = (it != c.end()); if (f) { rk = kid((*it).first); rv = vid((*it).second); } }
              }); }
            e.i("o", o).i("k", A(1)).i("r", f).i("rk", rk).i("rv", rv);
            if (got == 1) tail(e, *obj[o], A(1), it1); else if (got == 2) { const M & c = *obj[o]; tail(e, c, A(1), it2); }
        } else if (n == "has") {
            int c = -1, t = -1;
            if (op.how == "x") guarded([&] { const M & m = *obj[o]; auto ak = Alt<K>::mk(A(1)); t = m.contains(ak) ? 1 : 0; c = (int)m.count(ak); });
            else { std::unique_ptr<K> k(new K(Conv<K>::mk(A(1))));
              guarded([&] { const M & m = *obj[o]; t = m.contains(*k) ? 1 : 0; c = (int)m.count(*k); }); }
            e.i("o", o).i("k", A(1)).i("r", t).i("c", c);
        } else if (n == "at" || n == "cat") {
            long rv = -1; int f = -1;
            { std::unique_ptr<K> k(new K(Conv<K>::mk(A(1))));
              guarded([&] {
                try { if (n == "at") { V & v = obj[o]->at(*k); rv = vid(v); f = 1; } else { const M & m = *obj[o]; const V & v = m.at(*k); rv = vid(v); f = 1; } }
                catch (const std::out_of_range &) { f = 0; }
              }); }
            e.i("o", o).i("k", A(1)).i("r", f).i("rv", rv);
        } else if (n == "set") {           // write through an iterator
            int f = 0;
            { std::unique_ptr<K> k(new K(Conv<K>::mk(A(1)))); std::unique_ptr<V> v(new V(Conv<V>::mk(A(2))));
              auto it = obj[o]->find(*k); if (it != obj[o]->end()) { it->second = std::move(*v); f = 1; } }
            e.i("o", o).i("k", A(1)).i("v", A(2)).i("r", f);
        } else if (n == "era") {
            int c = -1;
            if (op.how == "x") guarded([&] { auto ak = Alt<K>::mk(A(1)); c = (int)obj[o]->erase(ak); });
            else { std::unique_ptr<K> k(new K(Conv<K>::mk(A(1)))); guarded([&] { c = (int)obj[o]->erase(*k); }); }
            e.i("o", o).i("k", A(1)).i("r", c);
        } else if (n == "eraks") {         // erase(first, last) of a range of keys
            std::vector<long long> ks; std::vector<K> v; std::list<K> l; long c = -1;
            for (size_t x = 1; x < op.a.size(); x++) { ks.push_back(A(x)); if (op.how == "l") l.push_back(Conv<K>::mk(A(x))); else v.push_back(Conv<K>::mk(A(x))); }
            guarded([&] { c = op.how == "l" ? (long)obj[o]->erase(l.begin(), l.end()) : (long)obj[o]->erase(v.begin(), v.end()); });
            e.i("o", o).l("ks", ks).i("r", c);
        } else if (n == "iter") {          // the algebra of iterators
            M & m = *obj[o]; const M & cm = m; std::vector<long long> ks; int ok = 1; long n1 = -1, n2 = 0, n3 = 0;
            guarded([&] { Quiet q;
                n1 = (long)std::distance(m.begin(), m.end());
                for (auto & x : m) { (void)x; if (++n2 > (long)m.size() + 8) break; }
                for (const auto & x : cm) { (void)x; if (++n3 > (long)m.size() + 8) break; }
                iterator d; const_iterator cd; d = m.begin(); cd = d;
                size_t g = m.size() + 8;
                while (d != m.end() && g-- > 0) {
                    iterator old = d++; const_iterator cold = cd++;
                    if (!(cold == const_iterator(old)) || d == old || !(cd == const_iterator(d)) || &*old != &*cold || &old->first != &(*old).first || &cold->second != &(*cold).second) ok = 0;
                    iterator nx = old; ++nx; if (nx != d) ok = 0;
                    ks.push_back(kid(old->first));
                }
                if (!(cd == m.cend()) || (m.begin() == m.end()) != m.empty() || (m.cbegin() == m.cend()) != m.empty()) ok = 0;
            });
            e.i("o", o).l("ks", ks).i("n1", n1).i("n2", n2).i("n3", n3).i("ok", ok);
        } else if (n == "erai") {          // erase(iterator) of a present key; records what follows
            if constexpr (Cfg::F::erase_it) {
                std::vector<long long> before, after; bool found;
                { std::unique_ptr<K> k(new K(Conv<K>::mk(A(1))));
                  auto it = obj[o]->find(*k); found = (it != obj[o]->end());
                  if (!found) return;
                  { Quiet q; size_t g = obj[o]->size() + 8; for (auto j = ++iterator(it); j != obj[o]->end() && g > 0; ++j, --g) before.push_back(kid(j->first)); }
                  iterator r = it;
                  guarded([&] { if (op.how == "c") { const_iterator ci = it; r = obj[o]->erase(ci); } else r = obj[o]->erase(it); });
                  if (!th) { Quiet q; size_t g = obj[o]->size() + 8; for (auto j = r; j != obj[o]->end() && g > 0; ++j, --g) after.push_back(kid(j->first)); } }
                e.i("o", o).i("k", A(1)).l("bf", before).l("af", after);
            } else return;
        } else if (n == "erar") {          // erase [first + i, first + j)
            if constexpr (Cfg::F::erase_range) {
                std::vector<long long> gone, after, order; long i = A(1), j = A(2);
                long sz = (long)obj[o]->size(); if (i > sz) i = sz; if (j > sz) j = sz; if (i > j) std::swap(i, j);
                auto f = obj[o]->begin(); for (long x = 0; x < i; x++) ++f;
                auto l = f; for (long x = i; x < j; x++) { gone.push_back(kid(l->first)); ++l; }
                { auto r = l; size_t g = obj[o]->size() + 8; for (; r != obj[o]->end() && g > 0; ++r, --g) order.push_back(kid(r->first)); }
                iterator r = f;
                guarded([&] { if (op.how == "c") { const_iterator cf = f, cl = l; r = obj[o]->erase(cf, cl); } else r = obj[o]->erase(f, l); });
                if (!th) { size_t g = obj[o]->size() + 8; for (; r != obj[o]->end() && g > 0; ++r, --g) after.push_back(kid(r->first)); }
                e.i("o", o).l("ks", gone).l("bf", order).l("af", after);
            } else return;
        } else if (n == "erif") {          // erase_if(key % m == r)
            if constexpr (Cfg::F::erase_if) {
                long m_ = A(1), r_ = A(2), c = -1;
                guarded([&] { c = (long)std::erase_if(*obj[o], [&](const auto & x) { env().point(16); return kid(x.first) % m_ == r_; }); });
                e.i("o", o).i("m", m_).i("q", r_).i("r", c);
            } else return;
        } else if (n == "erall") {         // for (it = begin; it != end;) it = pred(*it) ? erase(it) : ++it
            if constexpr (Cfg::F::erase_it) {
                long m_ = A(1), r_ = A(2); std::vector<long long> seen;
                guarded([&] {
                    size_t g = obj[o]->size() + 8;
                    for (auto it = obj[o]->begin(); it != obj[o]->end() && g > 0; --g) {
                        long k = kid(it->first); seen.push_back(k);
                        if (k % m_ == r_) it = obj[o]->erase(it); else ++it;
                    } });
                e.i("o", o).i("m", m_).i("q", r_).l("ks", seen);
            } else return;
        } else if (n == "clr") {
            guarded([&] { if (op.how == "t") obj[o]->clear(true); else obj[o]->clear(); });
            e.i("o", o);
        } else if (n == "rsv" || n == "reh") {
            const size_t c = (size_t)A(1); M & m = *obj[o];
            guarded([&] {
                if constexpr (Cfg::kind == 3) {
                    if (op.how == "z") { if (n == "rsv") m.resize(c); else m.resize(c, false); }
                    else if (op.how == "t") { if (n == "rsv") m.reserve(c, true); else m.rehash(c, true); }
                    else if (op.how == "zt") m.resize(c, true);
                    else if (n == "rsv") m.reserve(c); else m.rehash(c);
                } else if (n == "rsv") m.reserve(c); else m.rehash(c); });
            e.i("o", o).i("c", A(1)).i("ro", Cfg::kind == 3 && (op.how == "t" || op.how == "zt"));
        } else if (n == "hug") {           // a capacity nobody can provide, 2^a + b or SIZE_MAX - b
            std::size_t c = A(1) >= 64 ? ~(std::size_t)0 - (std::size_t)A(2) : ((std::size_t)1 << A(1)) + (std::size_t)A(2);
            try {
#if defined(__SANITIZE_ADDRESS__)
                (void)c; throw 1;          // operator new of the sanitizer ends the process
#else
                if (op.how == "r") obj[o]->reserve(c);
                else if (op.how == "h") obj[o]->rehash(c);
                else if constexpr (Cfg::alloc_stateful) { M tmp(c, typename M::hasher(), typename M::key_equal(), alloc_no(o + 1)); }
                else { M tmp(c); }
#endif
            } catch (...) { th = true; }
            e.i("o", o).t("h", op.how);
        } else if (n == "shr") {
            guarded([&] { if constexpr (Cfg::F::shrink_ro) { if (op.how == "t") obj[o]->shrink_to_fit(true); else obj[o]->shrink_to_fit(); } else obj[o]->shrink_to_fit(); });
            e.i("o", o).t("h", op.how);
        } else if (n == "mlf") {
            guarded([&] { obj[o]->max_load_factor((float)A(1) / 1000.0f); });
            e.i("o", o).i("c", A(1));
        } else if (n == "obs") {           // capacity observers
            M & m = *obj[o];
            auto cl = [](size_t x) { return (long long)std::min<size_t>(x, 2000000000u); };
            e.i("o", o).i("cap", cl(m.capacity())).i("lf", m.bucket_count() || m.capacity() ? (long)(m.load_factor() * 1000.0f + 0.5f) : 0);
            bool mx = true;                // limits are above what there is
            if constexpr (Cfg::kind == 1 || Cfg::kind == 2) mx = m.max_size() >= m.size() && m.max_bucket_count() >= m.bucket_count() && m.max_size() >= m.capacity();
            e.i("mx", mx);
            if (m.size() <= 64) {          // bucket() of the elements and of keys which are not there
                Quiet q; std::vector<long long> bk, bn;
                for (auto it = m.begin(); it != m.end() && bk.size() <= 64; ++it) bk.push_back(cl(m.bucket(it->first)));
                for (long k = 0; k < 12; k++) { K key(Conv<K>::mk(k)); if (m.find(key) == m.end()) bn.push_back(cl(m.bucket(key))); }
                e.l("bk", bk).l("bn", bn);
            } else e.l("bk", {}).l("bn", {});
            e.i("hh", Cfg::stateful_tag(m)).i("al", Cfg::alloc_stateful ? alloc_tag(m) : -1);
        } else if (n == "dump") {
            e.i("o", o); dump(o, e);
        } else if (n == "cdump") {
            e.i("o", o); cdump(o, e);
        } else if (n == "bins") {          // bulk: insert keys a, a+s, ... < b with value k + d; records how many were inserted
            long cnt = 0;
            guarded([&] { for (long k = A(1); k < A(2); k += A(3)) {
                if constexpr (cp) { if (op.how == "i") { V & v = (*obj[o])[Conv<K>::mk(k)]; v = Conv<V>::mk(k + A(4)); cnt++; continue; }
                    if (op.how == "t") { cnt += obj[o]->try_emplace(Conv<K>::mk(k), Conv<V>::mk(k + A(4))).second; continue; } }
                cnt += obj[o]->emplace(Conv<K>::mk(k), Conv<V>::mk(k + A(4))).second; } });
            e.i("o", o).t("h", cp ? op.how : std::string("e")).i("a", A(1)).i("b", A(2)).i("s", A(3)).i("d", A(4)).i("r", cnt);
        } else if (n == "bera") {
            long cnt = 0;
            guarded([&] { for (long k = A(1); k < A(2); k += A(3)) cnt += (long)obj[o]->erase(Conv<K>::mk(k)); });
            e.i("o", o).i("a", A(1)).i("b", A(2)).i("s", A(3)).i("r", cnt);
        } else if (n == "bfind") {         // keys of [a, b) found, with their values
            std::vector<long long> ks, vs;
            guarded([&] { for (long k = A(1); k < A(2); k++) { auto it = obj[o]->find(Conv<K>::mk(k)); if (it != obj[o]->end()) { ks.push_back(k); vs.push_back(kid(it->first) == k ? vid(it->second) : -4444); } } });
            e.i("o", o).i("a", A(1)).i("b", A(2)).l("ks", ks).l("vs", vs);
        } else throw std::logic_error("unknown op " + n);
        post(e, o, th);
        if (op.inject > 0) e.i("inj", op.inject);
        out().raw(e.str());
    }

    void finish() { for (int i = 0; i < NOBJ; i++) obj[i].reset(); addr.clear(); }
};

// ------------------------------------------------------------------ script reader
// Lines:  "T <name>" starts a trace;  "<op> <args...>";  "<op>:<how> <args...>";  prefix "x<n> " injects a fault.
template <typename Cfg>
int run_script(const char * script, const char * outp) {
    FILE * f = std::fopen(script, "r");
    if (!f) { perror(script); return 3; }
    out().open(outp);
    install();
    static char line[1 << 20];
    std::unique_ptr<Driver<Cfg>> d;
    auto close_trace = [&] {
        if (!d) return;
        for (int o = 0; o < Driver<Cfg>::NOBJ; o++) if (d->obj[o]) { Op op; op.name = "del"; op.a = { o }; d->step(op); }
        auto & e = env();
        Ev ev("end"); ev.i("lk", is_tracked<typename Cfg::K>::value ? e.live_k : -99999).i("lv", is_tracked<typename Cfg::V>::value ? e.live_v : -99999).i("le", e.life_err).i("ab", Cfg::counting ? e.alloc_blocks : -99999).i("ae", e.alloc_err);
        out().raw(ev.str());
        out().end();
        d.reset();
    };
    while (std::fgets(line, sizeof line, f)) {
        std::string s(line);
        while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
        if (s.empty() || s[0] == '#') continue;
        if (s[0] == 'T') {
            close_trace();
            arm_timer(30);
            out().begin();
            env().reset();
            d.reset(new Driver<Cfg>());
            Ev ev("cfg"); ev.t("name", Cfg::name()).t("trace", s.size() > 2 ? s.substr(2) : "").i("kind", Cfg::kind).i("stable", Cfg::stable).i("prop", Cfg::alloc_prop ? 1 : 0).i("sa", Cfg::alloc_stateful ? 1 : 0).t("tp", s.size() > 2 ? s.substr(2, s.find(' ', 2) - 2) : "");
            out().raw(ev.str());
            continue;
        }
        Op op; size_t p = 0;
        auto tok = [&]() { while (p < s.size() && s[p] == ' ') p++; size_t q = p; while (q < s.size() && s[q] != ' ') q++; std::string t = s.substr(p, q - p); p = q; return t; };
        std::string t = tok();
        if (t[0] == 'x' && t.size() > 1 && isdigit((unsigned char)t[1])) { op.inject = std::atol(t.c_str() + 1); t = tok(); }
        size_t c = t.find(':');
        op.name = t.substr(0, c); if (c != std::string::npos) op.how = t.substr(c + 1);
        while (p < s.size()) { std::string a = tok(); if (!a.empty()) op.a.push_back(std::atol(a.c_str())); }
        try { d->step(op); } catch (const std::exception & ex) {
            Ev ev("harness_error"); ev.t("what", ex.what()); out().raw(ev.str());
        }
    }
    close_trace();
    std::fclose(f);
    std::fclose(out().f);
    return 0;
}

} // namespace mt

namespace std {
template <> struct hash<mt::TK> { typedef size_t result_type; size_t operator()(const mt::TK & k) const { mt::TK::chk(k); mt::env().point(4); mt::Quiet q; return (size_t)mt::env().hash(k.id); } };
template <> struct hash<mt::SK> { typedef size_t result_type; size_t operator()(const mt::SK & k) const { mt::SK::chk(k); mt::env().point(4); mt::Quiet q; return (size_t)mt::env().hash(k.id); } };
}
