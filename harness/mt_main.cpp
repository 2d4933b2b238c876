// One binary per configuration: -DMAPK=<map> -DKVK=<key/value kind> -DHK=<hasher kind> -DAK=<allocator kind>
#ifndef MAPK
#define MAPK 1
#endif
#ifndef KVK
#define KVK 1
#endif
#ifndef HK
#define HK 0
#endif
#ifndef AK
#define AK 0
#endif
#if MAPK == 1
#include <jstd/hashmap/group15_flat_map.hpp>
#define MAPT jstd::group15_flat_map
#define MAPN "group15"
#elif MAPK == 2
#include <jstd/hashmap/group16_flat_map.hpp>
#define MAPT jstd::group16_flat_map
#define MAPN "group16"
#elif MAPK == 3
#include <jstd/hashmap/robin_hash_map.h>
#define MAPT jstd::robin_hash_map
#define MAPN "robin"
#elif MAPK == 4
#include <jstd/hashmap/robin16_hash_map.h>
#define MAPT jstd::robin16_hash_map
#define MAPN "robin16"
#elif MAPK == 5
#include <jstd/hashmap/flat16_hash_map.h>
#define MAPT jstd::flat16_hash_map
#define MAPN "flat16"
#endif
#include <jstd/string/string_view.h>
#include "mt.hpp"

using namespace mt;

struct Feat { static constexpr bool il = true, copy = true, move = true, casg = true, masg = true, ioa = true, ioa_hint = true, try_hint = true, erase_it = true, erase_range = true, erase_if = true, shrink_ro = true; };
#ifdef FEAT_LEGACY
struct FeatLegacy { static constexpr bool il = false, copy = false, move = false, casg = false, masg = false, ioa = true, ioa_hint = false, try_hint = false, erase_it = false, erase_range = false, erase_if = false, shrink_ro = false; };
#endif

#if KVK == 1
typedef int KT; typedef int VT;
#define KVN "int-int"
#elif KVK == 2
typedef std::size_t KT; typedef std::size_t VT;
#define KVN "size_t-size_t"
#elif KVK == 3
typedef std::string KT; typedef std::string VT;
#define KVN "string-string"
#elif KVK == 4
typedef mt::TK KT; typedef mt::TV VT;
#define KVN "tracked-tracked"
#elif KVK == 5
typedef int KT; typedef mt::Big VT;
#define KVN "int-big"
#elif KVK == 6
typedef mt::TK KT; typedef mt::MV VT;
#define KVN "tracked-moveonly"
#elif KVK == 7
typedef std::string KT; typedef int VT;
#define KVN "string-int"
#elif KVK == 8
typedef int KT; typedef mt::TV VT;
#define KVN "int-tracked"
#elif KVK == 9
typedef mt::TK KT; typedef int VT;
#define KVN "tracked-int"
#elif KVK == 10
typedef int KT; typedef std::string VT;
#define KVN "int-string"
#elif KVK == 11
typedef mt::SK KT; typedef mt::SV VT;
#define KVN "small-small"
#elif KVK == 12
typedef mt::SK KT; typedef mt::SMV VT;
#define KVN "small-moveonly"
#elif KVK == 13
typedef std::int64_t KT; typedef std::int64_t VT;
#define KVN "int64-int64"
#elif KVK == 14
typedef const char * KT; typedef mt::Al VT;
#define KVN "pointer-overaligned"
#elif KVK == 15
typedef std::string_view KT; typedef mt::Big VT;
#define KVN "view-big"
#elif KVK == 16
typedef mt::En KT; typedef mt::UP VT;
#define KVN "enum-unique_ptr"
#endif

#if HK == 0
typedef std::hash<KT> HT; typedef std::equal_to<KT> ET;
#define HN "std"
#elif HK == 1
typedef mt::CtlHash<KT> HT; typedef mt::CtlEq<KT> ET;
#define HN "ctl"
#elif HK == 2
typedef mt::CtlHashNA<KT> HT; typedef mt::CtlEq<KT> ET;
#define HN "ctlmix"
#elif HK == 3
typedef mt::Hash32<KT> HT; typedef std::equal_to<KT> ET;
#define HN "uint32"
#elif HK == 4
typedef mt::HashInt<KT> HT; typedef std::equal_to<KT> ET;
#define HN "int"
#endif

typedef std::pair<const KT, VT> PT;
#if AK == 0
typedef std::allocator<PT> AT;
#define AN "std"
#elif AK == 1
typedef mt::CountAlloc<PT, true> AT;
#define AN "count"
#elif AK == 2
typedef mt::CountAlloc<PT, false> AT;
#define AN "stateful"
#elif AK == 3
typedef mt::CountAlloc<PT, false, true> AT;
#define AN "propagate"
#endif

// robin layouts
#ifndef LAY
#define LAY 0
#endif
#if MAPK == 3 || MAPK == 4 || MAPK == 5
template <bool IND, bool HASH> struct Layout {
    static constexpr bool autoDetectPairLayout = true, isIsolatedKeyValue = false;
    static constexpr bool autoDetectIsIndirectKey = false, isIndirectKey = IND;
    static constexpr bool autoDetectIsIndirectValue = false, isIndirectValue = IND;
    static constexpr bool autoDetectStoreHash = false, needStoreHash = HASH;
};
#if LAY == 0
typedef MAPT<KT, VT, HT, ET, jstd::default_layout_policy<KT, VT>, AT> MT;
#define LN ""
#elif LAY == 1
typedef MAPT<KT, VT, HT, ET, Layout<false, true>, AT> MT;
#define LN "/direct+hash"
#elif LAY == 2
typedef MAPT<KT, VT, HT, ET, Layout<true, true>, AT> MT;
#define LN "/indirect+hash"
#elif LAY == 3
typedef MAPT<KT, VT, HT, ET, Layout<false, false>, AT> MT;
#define LN "/direct"
#elif LAY == 4
typedef MAPT<KT, VT, HT, ET, Layout<true, false>, AT> MT;
#define LN "/indirect"
#endif
#else
typedef MAPT<KT, VT, HT, ET, AT> MT;
#define LN ""
#endif

struct Cfg {
    typedef MT map_type; typedef KT K; typedef VT V;
#ifdef FEAT_LEGACY
    typedef FeatLegacy F;
#else
    typedef Feat F;
#endif
    static constexpr bool stateful = (HK == 1 || HK == 2);
    static constexpr bool identity_hash = (HK == 1);
    static constexpr bool counting = (AK != 0), alloc_stateful = (AK >= 2), alloc_prop = (AK == 3);
    static constexpr int kind = MAPK;
    static constexpr int stable = (MAPK == 1 || MAPK == 2) ? 1 : 0;
    static std::string name() { return std::string(MAPN "/" KVN "/" HN "/" AN LN); }
    static long stateful_tag(const MT & m) {
#if HK == 1 || HK == 2
        return m.hash_function().tag * 100 + m.key_eq().tag;
#else
        (void)m; return 0;
#endif
    }
};

int main(int argc, char ** argv) {
    if (argc < 3) return 3;
    return run_script<Cfg>(argv[1], argv[2]);
}
