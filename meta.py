#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the ids registered in checks.py)."""
import json, os
import checks
ROOT = os.path.dirname(os.path.abspath(__file__))
I = "include/sfl/"
SEQF = [I + f + ".hpp" for f in "vector devector compact_vector small_vector static_vector segmented_vector segmented_devector".split()]
FL = [I + a + b + c + ".hpp" for a in ("small_", "static_") for b in ("flat_", "unordered_flat_") for c in ("set", "map", "multiset", "multimap")]
SORTF = [f for f in FL if "unordered" not in f]; UNF = [f for f in FL if "unordered" in f]
def mech(*a): return [dict(name=n, where=w) for n, w in a]
T = {}
def prop(i, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    T[i] = dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=mech(*mechanism), observe_at=list(observe)))
PUB = ["public member functions of the containers, instantiated with instrumented element, allocator and comparator types"]

prop("P01", "Every sequence operation has exactly its documented effect",
 "For vector, devector, compact_vector, small_vector, static_vector, segmented_vector and segmented_devector, every modifying operation (push/emplace/pop at either end, insert and emplace anywhere in all overloads, erase, resize, assign, clear, reserve, shrink_to_fit, assignment, swap, erase/erase_if) applied to any state with any valid arguments leaves exactly the elements, in exactly the order, that the operation documents. Returned iterators and references designate the documented element, arguments passed by const reference or left in a range are unchanged, and all observers (size, empty, indexing, at, front, back, data, nth, index_of, forward and reverse iteration, available, capacity) agree with that content afterwards. This holds for copyable, copy-only, move-only and trivially copyable elements, whatever spare storage the container has at either end.",
 ["inputs", "configurations"], "all element values, positions, counts and spare-capacity layouts up to the bounds, every operation and overload, four kinds of element",
 "Unit tests fix a handful of sizes, positions and values; which of the many branches (in place, shift left, shift right, reallocate, segment boundary) runs depends on size, position, count and spare storage jointly, and they visit few combinations.",
 SEQF, [("insert_aux / emplace_back_aux / erase / assign_range_* / resize_*", "each header: in-place, shifting and reallocating branches"), ("uninitialized_*_a, move/copy helpers", I + "private.hpp")],
 [("first_/last_/eos_ (bos_)", "live range inside the storage", "each sequence header, class data")], PUB)
prop("P02", "Sequences follow the abstract sequence over whole operation histories",
 "Starting from an empty sequence container, after any history of operations the content, order and every observer equal those of an abstract sequence that performed the same history. No earlier operation can leave a container in a state from which a later operation misbehaves.",
 ["histories", "inputs"], "every history of operations up to the depth bound, with all arguments",
 "Tests run a few hand-written histories; interactions between the state one operation leaves behind (front/back spare storage, empty segments, inline versus heap storage) and the next operation are not enumerated.",
 SEQF, [("bookkeeping of spare storage in every modifier", "all sequence headers")], (), PUB)
prop("P03", "Sorted sets and multisets hold exactly the inserted elements, in order",
 "For small_flat_set, small_flat_multiset, static_flat_set and static_flat_multiset, after any operation the elements are ordered by the container's comparator (strictly, for sets) and are exactly those a mathematical set or multiset would hold; a set keeps the element already present. Every insertion reports whether it inserted and returns the designated element, and every erase removes exactly the requested elements and returns the documented count or position. The comparison object survives every operation and travels with copy, move and swap.",
 ["inputs", "configurations", "histories"], "all keys, all states up to the bounds, all overloads, both directions of a stateful comparator, heterogeneous overloads, several kinds of element; short histories",
 "Tests use small fixed key sets with the default ordering and mostly ascending insertions.",
 [f for f in SORTF if "set" in f], [("binary search, sort and unique in insert/assign", "small_flat_*.hpp, static_flat_*.hpp"), ("insert_range / initialize_range", "same files")], (), PUB)
prop("P04", "Sorted maps and multimaps hold exactly the inserted pairs, in key order",
 "For small_flat_map, small_flat_multimap, static_flat_map and static_flat_multimap, after any operation the keys are ordered by the container's comparator (strictly, for maps) and the key/value pairs are exactly those an abstract map or multimap would hold. Insertions of a present key into a map leave key and mapped value alone, only insert_or_assign and writes through references change a mapped value, and insertions, erasures and lookups return the documented element, flag, count or position. The comparison object survives every operation and travels with copy, move and swap.",
 ["inputs", "configurations", "histories"], "all keys and mapped values, all states up to the bounds, all overloads including hints and heterogeneous ones; short histories",
 "Tests use small fixed key sets with the default ordering; argument evaluation paths (existing key, missing key, storage full) are sampled.",
 [f for f in SORTF if "map" in f], [("insert_aux, try_emplace_aux, insert_or_assign_aux", "small_flat_map.hpp, static_flat_map.hpp"), ("initialize_range, insert_range_aux", "same files")], (), PUB)
prop("P05", "Unordered flat containers hold exactly the inserted elements",
 "For the eight unordered flat containers, after any operation the content is exactly the set, map, multiset or multimap the operations describe, with uniqueness (for set and map) under the container's key equality. Insertions report whether they inserted and return the designated element; erasures remove exactly the requested elements, return the documented count or position, and do not move an element across the returned position so that erase-while-iterating visits every element once. The equality object survives every operation and travels with copy, move and swap.",
 ["inputs", "configurations", "histories"], "all keys and mapped values, all states up to the bounds, all overloads; short histories",
 "Erasure moves the last element into the gap; tests check only a few positions and mostly distinct keys.",
 UNF, [("swap-with-last erase, linear find, insert_aux", "small_unordered_flat_*.hpp, static_unordered_flat_*.hpp")], (), PUB)
prop("P06", "Lookup answers exactly for every key and container state",
 "find, count, contains, lower_bound, upper_bound and equal_range of every associative container return the mathematically correct answer for every key, through const, non-const and heterogeneous overloads alike. key_comp, value_comp, key_eq and value_eq order or compare exactly as the container does. Lookups change nothing.",
 ["inputs", "configurations"], "any state up to the bound (including duplicates), any key present or absent, both comparator directions",
 "Tests look up a few keys in a few fixed containers; boundaries of runs of equivalent keys and empty containers are not covered for all sizes.",
 FL, [("lower_bound/upper_bound/equal_range wrappers, find", "flat headers"), ("linear search of unordered containers", "unordered headers")], (), PUB)
prop("P11", "An exception from a user operation leaves valid containers and no leaks",
 "If an element's copy, move, construction or assignment, a comparator or the allocator throws during any operation or constructor of any container, the exception reaches the caller and every container involved stays valid: all its elements are alive, observers agree, it can be used further and destroyed, no element is destroyed twice or leaked and no storage is lost. If only the comparator threw, order and uniqueness of associative containers are intact.",
 ["fault_sequences", "inputs", "configurations"], "a failure at any throwing point of any operation or constructor, from any state up to the bounds",
 "Tests inject failures at a few counters for some operations; each operation has many throwing points whose recovery depends on how far it had come.",
 SEQF + FL + [I + "private.hpp"], [("SFL_TRY/SFL_CATCH rollbacks, scope guards", "all headers"), ("uninitialized_* helpers destroying what they built", I + "private.hpp")], (), PUB)
prop("P13", "Allocators are used exactly as the allocator model requires",
 "Storage is obtained and returned only through the container's allocator, with the same count, and never through an unequal one; every element is constructed and destroyed through allocator_traits. Copy and move construction, assignment and swap select, propagate or keep allocators exactly according to select_on_container_copy_construction, the propagate_on_* traits and is_always_equal, moving elements one by one when unequal allocators are not propagated. get_allocator reports the allocator in use, and allocator-extended constructors use the one given.",
 ["configurations", "inputs"], "all combinations of equal and unequal allocators with nine combinations of the traits and hooks, all states up to the bounds",
 "Tests use std::allocator or one tracking allocator; combinations of propagation traits with unequal allocators are not explored.",
 [f for f in SEQF if "static" not in f] + [f for f in FL if "static" not in f] + [I + "private.hpp"], [("assign/swap/move helpers dispatching on propagation traits", "each header"), ("construct_at_a, destroy_a, allocate, deallocate", I + "private.hpp")], (), PUB)
prop("P16", "Impossible lengths are refused with length_error and lengths never overflow",
 "For every requested length, count or range size in the whole 64-bit range, operations of dynamically sized containers either succeed with exactly that size or fail cleanly: lengths above max_size() give std::length_error (never an overflowed smaller allocation), an allocator refusal gives its own exception, and the container is unchanged after a refused resize, reserve or insert. max_size() honours both the allocator and the element size, and the container never exceeds it (segmented containers, which allocate whole segments, never by two segments or more), while lengths that fit are accepted.",
 ["inputs", "configurations"], "every 64-bit length, element sizes of 1 to 40 bytes, any small state, every small max_size()",
 "Tests cannot allocate near the limits and try one or two oversized lengths; overflow in capacity arithmetic needs particular 64-bit values.",
 [f for f in SEQF if "static" not in f], [("check_size / calculate_new_capacity / max_size", "each header")], (), PUB)
prop("P17", "at() is checked for every position and key",
 "at(pos) of every sequence container throws std::out_of_range for every position not below size() and otherwise refers to exactly the element at that position, for all 64-bit positions, const and non-const. at(key) of every map throws std::out_of_range exactly when no equivalent key is present and otherwise refers to that key's mapped value, including heterogeneous keys. A throwing at() changes nothing.",
 ["inputs"], "every 64-bit position / every key, any state up to the bounds",
 "Tests try size() and a few valid positions.", SEQF + [f for f in FL if f.endswith("map.hpp") and "multi" not in f],
 [("bounds check in at()", "each header")], (), PUB)
prop("P18", "Arguments may refer to the container's own elements",
 "push, insert, emplace, insert(n, value), resize(n, value), erase by value or key, insert_or_assign and the other operations taking an element or key by reference work correctly when the argument is (part of) an element of the same container, whether or not the operation moves elements or reallocates. The result is the same as if a copy of the argument had been passed.",
 ["inputs", "configurations"], "any element of any state up to the bounds as the argument of any such operation",
 "The aliased element is destroyed, moved or overwritten only for particular positions and spare storage; tests cover one or two.",
 SEQF + FL, [("temporary copies before shifting or reallocating", "insert/emplace paths in each header")], (), PUB)
prop("P19", "Iterators satisfy the random access laws",
 "begin, end, ++, --, +=, -=, +, -, [], *, ->, comparisons, conversion to const_iterator and reverse iteration of every sequence container form a consistent random access traversal that visits exactly the elements in order, across segment boundaries and at both ends of the storage. Differences and orderings agree with positions for all pairs of positions. The library's own algorithms specialised for segmented iterators give the same result as the element-wise algorithm.",
 ["inputs", "configurations"], "all pairs of positions in any state up to the bounds, segment sizes 1 to 3",
 "Segment boundary cases depend on position, offset and distance together; tests step through a few.",
 SEQF + [I + "private.hpp"], [("segmented iterator arithmetic", I + "segmented_vector.hpp, segmented_devector.hpp"), ("segmented copy/move/fill overloads", I + "private.hpp")], (), PUB)
prop("P20", "Comparison operators agree with the mathematical definition",
 "== and != compare contents (as sequences, sorted sequences, or permutations for unordered containers, honouring duplicates), and <, >, <=, >= give the lexicographical order of the contents, for every pair of containers of the same type. Capacity, spare storage and insertion history do not influence the result. The operators are mutually consistent and change nothing.",
 ["inputs"], "any pair of containers up to the bounds, all element values",
 "Tests compare a few fixed pairs.", SEQF + FL, [("operator==, operator<", "end of each header")], (), PUB)

prop("P07", "Map access operations create, assign and keep exactly as documented",
 "For unique maps, insert_or_assign assigns the mapped value of an existing key and otherwise inserts; try_emplace on an existing key changes nothing and does not move from its arguments; operator[] inserts a value-initialised mapped value exactly when the key is missing and refers to the mapped value in every case; at() refers to it or throws. All overloads (const&, &&, heterogeneous, hinted, wrong hints included) agree, report whether they inserted, and leave every other pair alone.",
 ["inputs", "configurations"], "all keys, mapped values and hints, every state up to the bound, all overloads",
 "Each overload has separate code for the present and the missing key, in full and in spare storage, with good and bad hints; tests call each with one or two keys.",
 [f for f in FL if f.endswith("map.hpp") and "multi" not in f], [("insert_or_assign / try_emplace / operator[] overloads", "map headers"), ("insert_aux with hint", "small_flat_map.hpp, static_flat_map.hpp")], (), PUB)
prop("P08", "A hint never changes the outcome",
 "insert(hint, ...), emplace_hint and the hinted map operations give the same content as the call without a hint, keep order and uniqueness, and return an iterator to the designated element, for every hint position (also a wrong one) and every key, in every container.",
 ["inputs", "configurations"], "all hint positions times all keys in every state up to the bound",
 "Only some combinations of hint position and key ordering take each of the hint branches; with duplicates there are many and tests try a few correct hints.",
 FL, [("insert_aux(hint, ...) / emplace_hint", "flat headers")], (), PUB)
prop("P09", "Ranges, counts and initializer lists are consumed exactly and give their content",
 "Every constructor, assignment and insertion taking a range, initializer_list, count or count and value produces exactly that content, for input, forward, bidirectional, contiguous and move iterators alike; an input range is read once, a source range is not changed. Associative containers built or extended from an unsorted range with duplicates hold exactly the elements inserting one by one gives, with the comparator and allocator that were passed.",
 ["inputs", "configurations"], "every range up to the bound, in five iterator categories, every constructor and range operation, every state up to the bound",
 "Each iterator category selects different code and interacts with length, position and spare storage; tests use one or two ranges per category.",
 SEQF + FL, [("initialize_range_*, assign_range_*, insert_range_*", "all headers"), ("sort/unique based bulk insertion", "flat headers")], (), PUB)
prop("P12", "Failed reserve and shrink_to_fit have no effect (strong guarantee)",
 "If an element operation or the allocator throws during reserve, reserve_front, reserve_back or shrink_to_fit of vector, devector, small_vector, the segmented containers and the small associative containers, the container is exactly as before: the same elements at the same addresses, same capacity, same storage, and nothing is leaked; the exception reaches the caller.",
 ["fault_sequences", "inputs"], "a failure at any throwing point of the operation, from any state up to the bounds, four kinds of throwing elements",
 "The failure can hit at any of several points; whether the old storage is still intact depends on move-versus-copy choice, number of elements and inline or heap storage.",
 [f for f in SEQF if "static" not in f and "compact" not in f] + [f for f in FL if "static" not in f] + [I + "private.hpp"], [("uninitialized_move_if_noexcept_a into new storage before releasing the old", "reserve, shrink_to_fit")], (), PUB)
prop("P14", "Copies, moves and swaps give independent containers with the right content",
 "A copy equals its source and shares nothing with it; a move transfers the exact content (without touching elements for heap containers) and leaves a valid source; swap exchanges contents exactly. Afterwards any operation on one container leaves the other unchanged. Self-assignment, self-move and self-swap leave a valid container, the first and last with unchanged content.",
 ["inputs", "configurations", "histories"], "all pairs of states up to the bounds (inline and heap storage on either side), every form of copy, move, swap, followed by any of 14 operations on either container",
 "Small containers have four combinations of inline and heap storage on the two sides with different sizes each, and an aliasing error shows only after a later operation.",
 SEQF + FL, [("copy/move constructors, assignment, swap", "all headers")], (), PUB)
prop("P15", "Capacity and reference-stability promises are kept",
 "capacity() has its documented relation to reserve, shrink_to_fit, clear and erase; a container with static or reserved capacity does not allocate while the result fits; small containers use no heap until more than N elements are stored; compact_vector always has capacity() == size(). Operations that need not move an element keep its address: growing at an end within capacity, elements in front of the position of insertions and erasures, and, in segmented containers, growing at either end, reserve and shrink_to_fit. All storage comes from the allocator.",
 ["inputs", "histories", "configurations"], "every operation from every state up to the bounds, then the reserved insertions",
 "Reallocation decisions depend on the exact size, capacity and position of the spare storage; an off-by-one only shows when storage is exactly full.",
 SEQF + FL, [("available_back/front checks before growing", "all headers"), ("internal storage switch", "small_*.hpp")], (), PUB)
prop("P22", "erase and erase_if remove exactly the matching elements",
 "sfl::erase(container, value) and sfl::erase_if(container, predicate) remove exactly the matching elements, keep the others (in order for sequences and sorted containers), return the number removed, and apply the predicate exactly once to each element, for every container.",
 ["inputs"], "every pattern of matching and non-matching elements up to the bound",
 "All 2^n patterns of matches matter for in-place compaction; tests try a few.",
 SEQF + FL, [("erase, erase_if", "end of each header")], (), PUB)

exec(open(os.path.join(ROOT, "meta_more.py")).read()) if os.path.exists(os.path.join(ROOT, "meta_more.py")) else None

NA = []
def main():
    ids = sorted(checks.CHECKS)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for i in ids: f.write(json.dumps(T[i]) + "\n")
    ch = []
    for i in ids:
        b = checks.CHECKS[i]["bounds"]; b = b if isinstance(b, str) else b["quick"]
        ch.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique="symbolic execution of the library's LLVM bitcode with SMT-decided path conditions and assertions",
                       level="model_checking",
                       level_note="Decided for every input within the bounds (quick: %s); all paths are explored and every assertion is a solver verdict, counterexamples are replayed on the natively compiled code under ASan/UBSan. Outside the bounds nothing is claimed. Trusted: clang front end, the engine's IR semantics and memory model (sampled against native runs on every check), difference-logic core cross-checked with z3, the harness's abstract model." % b))
    m = dict(version=1, setup_cmd="make -C engine -j8 OUT=../build", checks=ch, not_applicable=NA,
             notes="No hooks in /repo are needed: the harnesses instantiate the containers with instrumented types. Commits in /repo beyond the base are fix: commits only (see known-findings.txt).")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
