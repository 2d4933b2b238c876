"""Writes properties.jsonl (kept as a program so that the anchors stay readable)."""
import json, os
G15, G16, RB = "src/jstd/hashmap/group15_flat_table.hpp", "src/jstd/hashmap/group16_flat_table.hpp", "src/jstd/hashmap/robin_hash_map.h"
MAPS = ["src/jstd/hashmap/group15_flat_map.hpp", "src/jstd/hashmap/group16_flat_map.hpp", G15, G16, RB]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))


ST = [("control bytes", "which slots are used, and a fragment of each hash", G15 + ", " + G16 + ", " + RB + " (ctrl_type)"),
      ("overflow marks", "whether a probe sequence has to continue past a group", "src/jstd/hashmap/flat_map_group15.hpp, flat_map_group16.hpp"),
      ("probe distance", "how far a robin-hood element is from its home", RB + " (ctrl_data::dist)")]
H = ["inputs", "histories", "configurations"]

prop("C01", "Every map behaves as a mathematical map, whatever the history",
     "After any sequence of operations, lookup (find, contains, count, at, operator[], iteration, size, empty) on every map of the library reports exactly the key/value pairs put in by the operations so far and not since removed, each key at most once and with its last assigned value. This holds for group15_flat_map, group16_flat_map and robin_hash_map, for every key and value type, hasher and storage layout.",
     H, "every finite history of public operations, every key set, every key/value type and layout",
     "the tests insert and erase a few fixed or random int/string key sets in one order; overflow marks, displacement chains, backward shifts and growth make the answer depend on the whole history",
     MAPS, [("group probing with overflow marks", G15 + " find_impl/find_or_insert/reset_ctrl"), ("group probing with overflow marks", G16 + " find_impl/find_or_insert/reset_ctrl"), ("robin-hood displacement and backward shift", RB + " find_and_insert/insert_to_place/erase_slot")],
     ST, ["find()", "contains()", "count()", "at()", "operator[]", "begin()..end()", "size()"])
prop("C02", "Every insertion form has exactly its documented effect",
     "insert, emplace, emplace_hint and try_emplace (every overload: lvalue, rvalue, piecewise, hinted, range, initializer list) add the key with that value if and only if it is absent, never change an existing element, and return an iterator to the element together with whether it was added; insert_or_assign and assignment through operator[] always leave the key with the given value, without replacing the stored key object. A range inserts all its elements, the first of equal keys winning.",
     H, "every insertion form, in every state of the table (in particular with an equal key present, and when the insertion makes the table grow), for every key/value type",
     "tests use two or three of the two dozen overloads, mostly with absent keys of trivial type; several overloads did not even compile",
     MAPS, [("insertion dispatch", G15 + " emplace_impl/try_emplace_impl/insert_or_assign"), ("insertion dispatch", G16 + " emplace_impl/try_emplace_impl/insert_or_assign"), ("insertion dispatch, retry after growth", RB + " emplace_impl/try_emplace_impl/insert_or_assign")],
     ST, ["returned pair/iterator", "contents after the call"])
prop("C03", "Iteration visits each element exactly once and ends",
     "From begin() to end(), const or not, every element present is visited exactly once and nothing else is visited, in any state reachable by insertions, erasures, growth, shrinking, copy, move and clear. An empty map has begin() equal to end(), and the iterator returned by a lookup or an insertion continues the same traversal.",
     H, "every reachable table state, including sparse, full, erased-to-empty and moved-from tables",
     "tests iterate over a handful of dense tables",
     MAPS + ["src/jstd/hashmap/flat_map_iterator.hpp", "src/jstd/hashmap/flat_map_iterator15.hpp"],
     [("skip to the next used slot", "src/jstd/hashmap/flat_map_iterator15.hpp, flat_map_iterator.hpp, " + RB + " next_valid_iterator"), ("first used slot", G15 + "/" + G16 + " begin()")], ST, ["begin()", "end()", "operator++", "cbegin()"])
prop("C04", "Capacity changes preserve the contents; reserve keeps its promise",
     "Growth, rehash, reserve, shrink_to_fit and max_load_factor changes never add, lose or alter an element, and the maps never lose the ability to find or insert afterwards. After reserve(n) on group15_flat_map or group16_flat_map at least n elements in total can be inserted (with no erasure in between) without another rehash, and lookups and erasures never rehash. A capacity too large to be provided is refused with an exception that leaves the map as it was.",
     H, "every table content, every sequence of capacity operations and every argument, including 0 and values below the current size",
     "tests call rehash/reserve a few times with convenient arguments on fresh tables and rarely look at the contents afterwards",
     MAPS, [("rehash into a new table", G15 + "/" + G16 + " rehash_impl, " + RB + " rehash_impl"), ("capacity computation", "calc_capacity/shrink_to_fit_capacity/min_require_capacity")], ST,
     ["contents", "bucket_count()", "addresses of elements"])
prop("C05", "Maps are values: copies are independent, moves and swaps transfer everything",
     "A copy (constructed or assigned) equals its source and is afterwards independent of it; a move or swap transfers the complete contents and leaves every involved map valid and usable with working functors (a moved-from map is empty); self-assignment changes nothing. This holds for every allocator (equal, unequal, propagating or not) and hasher state.",
     H, "every pair of map states (empty, never filled, moved-from, full, erased), every allocator propagation policy",
     "copy/move of these maps was hardly instantiated by any test",
     MAPS, [("copy/move constructors and assignment", G15 + "/" + G16 + "/" + RB + " constructors, operator=, assign_impl"), ("swap", "swap_impl/swap_content")], ST, ["contents of all maps after each operation"])
prop("C06", "Every element is constructed once, destroyed once, never used outside its life",
     "Over the whole life of a map each key and value object it holds is constructed exactly once and destroyed exactly once, is never read, assigned or destroyed outside that interval, and none is left behind when the map is destroyed. The number of live elements always equals the sizes of the live maps.",
     ["histories", "inputs", "configurations", "fault_sequences"], "every history of operations, every element type (trivial, throwing, move-only), every layout",
     "the tests use trivial or std::string elements without counting them; leaks and double destructions do not change any tested result",
     MAPS + ["src/jstd/hashmap/flat_map_slot_policy.hpp", "src/jstd/hashmap/map_slot_policy.h"], [("element construction/transfer/destruction", "src/jstd/hashmap/map_slot_policy.h, flat_map_slot_policy.hpp"), ("swap/displacement of elements", RB + " insert_to_place/swap_slot")], ST, ["constructor/destructor calls of instrumented elements", "AddressSanitizer"])
prop("C07", "Memory goes back to the allocator it came from, exactly once",
     "Every block a map obtains from an allocator is returned exactly once, to an equal allocator and with the size it was requested with, and nothing remains allocated after the map is destroyed. get_allocator() follows the allocator propagation traits on copy, move and swap.",
     ["histories", "inputs", "configurations", "fault_sequences"], "every history, every allocator kind (stateless, stateful with unequal instances, propagating)",
     "the tests only use std::allocator, for which all of this is invisible",
     MAPS, [("table allocation/deallocation", G15 + "/" + G16 + "/" + RB + " create_slots/destroy_slots/rehash_impl"), ("propagation", "operator=, swap")], ST, ["allocate/deallocate calls of an instrumented allocator", "get_allocator()"])
prop("C08", "An exception from an element, allocator or functor leaves the map intact",
     "When a key or value constructor, a copy, an allocation, or (outside of growth) the hasher or equality throws during an operation, the exception reaches the caller, no element is lost, duplicated or leaked, single-element insertions have no effect, and every involved map remains fully usable. A constructor that throws leaves nothing behind.",
     ["fault_sequences", "histories", "inputs"], "every throwing point of every operation, in every table state",
     "no test throws from an element constructor, a hasher or an allocator",
     MAPS, [("construct after claiming the slot, release on failure", G15 + "/" + G16 + " construct_new_slot, " + RB + " construct_new_slot"), ("allocate before dismantling", "rehash_impl/create_slots")], ST, ["contents after a throwing operation", "live elements and blocks"])
prop("C09", "Elements stay where they are unless the table is rehashed",
     "In group15_flat_map and group16_flat_map, pointers and references to elements stay valid and keep denoting the same key until that element is erased or an insertion or capacity operation rehashes the table: insertions without growth, lookups, and erasures of other elements move nothing. Swap and move (with equal or propagating allocators) carry elements over without moving them.",
     H, "every history between two rehashes",
     "tests never compare addresses",
     MAPS[:4], [("elements are placed once and never shifted", G15 + "/" + G16 + " find_empty_to_insert"), ("erase only resets control bytes", G15 + "/" + G16 + " reset_ctrl/erase")], ST, ["addresses of elements seen through iterators"])
prop("C10", "Adversarial hashes and endless insert/erase churn cannot break or hang a map",
     "With any deterministic hash function (all keys colliding, few distinct values, clustered, extreme bit patterns) and under unbounded insert/erase churn at bounded size, every operation terminates, results stay exact, and memory is neither corrupted nor allowed to grow without bound. For robin_hash_map this covers up to a few dozen keys that share one home position.",
     H, "every hash function and every interleaving of insertions and erasures",
     "tests only use std::hash on benign keys and never churn a nearly full table long enough for marks to accumulate",
     MAPS + ["src/jstd/hashmap/group_quadratic_prober.hpp", "src/jstd/hashmap/flat_map_group15.hpp", "src/jstd/hashmap/flat_map_group16.hpp"],
     [("probe loop ends at a group without overflow, or after all groups", G15 + "/" + G16 + " find_impl"), ("threshold correction on erase/insert (anti-drift)", G15 + "/" + G16 + " reset_ctrl"), ("probe-distance bound", RB + " is_over_distance/max_lookups")], ST, ["results", "termination", "bucket_count()"])
prop("C11", "Size, capacity and load-factor observers are consistent and enforced",
     "size() <= capacity() <= what the buckets hold, load_factor() equals size over bucket_count (0 when empty), and a table of more than 32 buckets never exceeds max_load_factor() after an insertion, a reserve, a rehash or a max_load_factor change (a rebuild asked to be read-only suspends this until the table is next rebuilt). max_load_factor(z) takes effect (clamped to the supported range), survives growth, copy, move and swap, and grows the table only if its contents require it. bucket(k) of a contained key is a bucket of its own; an absent key has none (a number not below bucket_count()).",
     H, "every history of insertions, erasures and capacity operations, every requested load factor",
     "tests check size() and print the rest",
     MAPS, [("threshold computation", G15 + "/" + G16 + "/" + RB + " calc_slot_threshold/need_grow"), ("max_load_factor", "max_load_factor(float)")], ST, ["size()", "capacity()", "bucket_count()", "load_factor()", "max_load_factor()"])
prop("C12", "Positional, range and predicate erasure remove exactly what was asked",
     "erase(key), erase(iterator), erase(const_iterator), erase(first, last) and erase_if remove exactly the designated elements and report their number or the position that follows; the traversal from the returned iterator visits exactly the not-yet-visited remaining elements. The usual loop `it = pred ? erase(it) : ++it` visits every element exactly once.",
     H, "every table state, every position and range, every predicate, in maps that shift elements on erase and maps that do not",
     "most of these overloads did not compile before and are not tested",
     MAPS, [("erase and continue", G15 + "/" + G16 + " erase(iterator)/erase(first,last), " + RB + " erase_slot (backward shift)")], ST, ["contents", "returned iterator", "returned count"])
prop("C13", "A map never modifies its caller's arguments, except what it takes from rvalues",
     "Arguments passed as lvalues (keys, values, pairs, ranges, initializer lists) are unchanged after any operation, and try_emplace leaves even rvalue arguments untouched when the key is already present.",
     H, "every overload, with the key present or absent, with and without growth, and when the operation throws",
     "tests never look at their arguments after a call; a moved-from lvalue string shows up only in the caller",
     MAPS, [("perfect forwarding", "emplace_impl/try_emplace_impl/insert_or_assign/insert")], (), ["the argument objects after the call"])
prop("C14", "The hasher and key-equality objects given to a map are the ones it uses",
     "A map keeps and uses the hasher and key-equality instances it was constructed with, copies and copy-assignments carry them over, moves and swaps transfer them, and hash_function() and key_eq() return them. Lookups after any of these keep working even when functor instances with different state are involved.",
     H, "every sequence of construct/copy/move/assign/swap over maps with differently parameterised functors",
     "tests only use stateless functors",
     MAPS, [("functor members", G15 + "/" + G16 + "/" + RB + " constructors, swap_policy, assign_impl")], (), ["hash_function()", "key_eq()", "lookups"])
prop("C15", "String views compare, search and slice like the character sequences they denote",
     "Equality, the six ordering operators, compare and is_equal (whole, sub-range, with C strings and std::string), substr, copy and at on string views agree with lexicographical comparison of unsigned character sequences of exactly the given lengths, for every content (embedded zeros, bytes above 127, common prefixes, empty views) and every in-range or too-long count; positions past the end are reported by an exception. The comparisons form a total order consistent with equality.",
     ["inputs", "configurations"], "every pair of strings, every position and count, at every alignment and length around the vector widths",
     "tests compare a few ASCII strings; the SIMD and word-wise comparison routines have length- and alignment-dependent paths",
     ["src/jstd/string/string_view.h", "src/jstd/string/string_traits.h", "src/jstd/string/string_utils.h", "src/jstd/string/string_libc.h", "src/jstd/string/string_stl.h"],
     [("comparison", "src/jstd/string/string_utils.h is_equals/compare"), ("operators", "src/jstd/string/string_view.h")], (), ["operator==, <, <=, >, >=", "compare()", "is_equal()", "substr()", "copy()", "at()"])
prop("C16", "Power-of-two and bit-scan helpers are exact for every operand",
     "is_pow2 (n >= 1), round_up, round_down, round_to, next_pow2, prev_pow2, log2, the decimal logarithm and their compile-time forms, and bit scan, leading/trailing zero count and population count, return the mathematically defined value for every operand in their domain, for 32- and 64-bit types alike; where the mathematical value does not fit the type, the result is the type's maximum (all ones). Builds for different instruction sets agree.",
     ["inputs", "configurations"], "every operand (in particular 0, 1, powers of two and their neighbours, the top bit), every instruction-set level",
     "tests sample small values; table sizing relies on the boundary values",
     ["src/jstd/support/Power2.h", "src/jstd/support/BitUtils.h", "src/jstd/math/log10_int.h"], [("rounding", "src/jstd/support/Power2.h run_time::*/compile_time::*"), ("bit scans", "src/jstd/support/BitUtils.h")], (), ["returned values"])
prop("C17", "Hash functions are deterministic functions of the key's bytes",
     "Each hash function of the library (jstd::hashes, hash_helper, string_hash_helper, jstd::hash, and the integer mixers behind SimpleHash, FibonacciHash and MumHash) returns the same value for equal keys regardless of their address, alignment and surrounding memory, and neither reads nor writes anything beyond the key. Its result equals the algorithm's it is named after (FNV-1a, CRC-32C as used by the library: zero padded, without final inversion in the fast variants; BKDR, times-31, times-33, AP, rocksdb; Fibonacci and folded 128-bit multiplication), on every instruction set. A string, a view of it (also the default constructed view for the empty string), a pointer with length and a C string of the same characters hash alike.",
     ["inputs", "configurations"], "every byte sequence, length, alignment and seed",
     "tests hash a few strings and do not compare against the algorithm",
     ["src/jstd/hasher/hashes.h", "src/jstd/hasher/fnv1a.h", "src/jstd/hasher/hash_crc32.h", "src/jstd/hasher/hash_helper.h"], [("hash functions", "src/jstd/hasher/*.h")], (), ["returned hash values"])
prop("C18", "Random generators produce the Mersenne Twister sequences, within bounds",
     "MT19937_32 and MT19937_64, seeded by constructor or srand with a non-zero number, or with a number and a non-empty key array, produce exactly the outputs of the reference MT19937 and MT19937-64 from that seed, for as long as they are drawn from (64-bit values drawn from the 32-bit generator consist of two consecutive outputs, 32-bit values drawn from the 64-bit one are half of an output). Generators do not influence each other; seeding again restarts the sequence, and a copy continues with the outputs its original would have produced, independently of it. On every generator (also LibcRandom) equal non-zero seeds give equal results; the ranged integer functions of BasicRandomGenerator return values between their bounds, both included, in whichever order these are given (one bound: between 0 and it), and every value of the range can occur; nextFloat, nextDouble, nextDouble53 return values of [0, 1] ([0, 1) for nextDouble53) or between their bounds.",
     H, "every seed, key array, number of draws, bounds, and interleaving of generators, copies and reseeding",
     "the tests do not touch the generators; a wrong word of the state shows only hundreds of draws later",
     ["src/jstd/system/MT19937_32.h", "src/jstd/system/MT19937_64.h", "src/jstd/system/RandomGen.h", "src/jstd/system/LibcRandom.h", "src/jstd/system/LibcRand.h"],
     [("recurrence and seeding", "src/jstd/system/MT19937_*.h init/init_keys/next_state/srand/rand"), ("ranges", "src/jstd/system/RandomGen.h nextInteger/nextFloat/nextDouble")], (), ["values returned by rand(), next*()"])

if __name__ == "__main__":
    import sys
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
