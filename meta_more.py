prop("P21", "Operations stay within their documented complexity",
 "The documentation states a complexity for every function. Appending (and prepending, for double-ended containers) takes amortised constant time; insertion and erasure in a sequence touch only the elements behind the position (for devector and segmented_devector: the shorter side, where documented) plus those inserted; resize, assign and range operations are linear; moves and swaps of heap containers do not touch elements; a sorted associative container looks keys up with a logarithmic number of comparisons, an unordered one with a linear number; comparing containers of different sizes compares no elements. Neither the number of element operations, comparisons nor allocations exceeds these bounds in any state.",
 ["inputs", "configurations"], "every operation, every position and count, sizes and spare-capacity layouts up to the bounds; long runs of insertions at the ends",
 "Tests check results, never work; an accidentally quadratic or linear path (growth by one, copying the longer side, linear search) passes all of them.",
 SEQF + FL, [("calculate_new_capacity and growth", I + "private.hpp and each sequence header"), ("lower_bound/upper_bound/equal_range", "small_flat_*.hpp, static_flat_*.hpp, " + I + "private.hpp")], (), PUB)
prop("P23", "Without exceptions, failures abort and everything else works the same",
 "With exceptions disabled (-fno-exceptions, or SFL_NO_EXCEPTIONS defined) the library compiles; where it would throw std::out_of_range or std::length_error it calls std::abort before touching memory it does not own, and every operation that does not fail has the same effect as in a build with exceptions, with assertions on or off (NDEBUG).",
 ["inputs", "configurations"], "every position, key and length; every operation from any state up to the bounds",
 "The test suite is never built without exceptions; the SFL_TRY/SFL_CATCH macros expand to different control flow there.",
 SEQF + FL + [I + "private.hpp"], [("SFL_TRY/SFL_CATCH/SFL_RETHROW and throw_length_error/throw_out_of_range", I + "private.hpp")], (), PUB)
prop("P24", "In debug builds, a violated precondition is stopped by an assertion",
 "The documentation lists preconditions (valid iterator or range of this container, position not end(), container not empty, not full, count within the size or the static capacity, equal allocators). With assertions enabled (NDEBUG not defined), a call violating a listed precondition is stopped by SFL_ASSERT before anything outside the container is read or written and before any element is changed; it is never executed silently. A call satisfying its preconditions is never stopped.",
 ["inputs", "configurations"], "every documented precondition of every operation, every state up to the bounds, every violating argument value within them",
 "Tests never violate preconditions, so a missing, weakened or misplaced assertion is invisible to them.",
 SEQF + FL, [("SFL_ASSERT at the top of each operation", "all headers")], (), PUB)
prop("P25", "Containers work with allocators that have fancy pointers",
 "With an allocator whose pointer type is a class (not a raw pointer), every container behaves exactly as with raw pointers: pointers are only created by the allocator, copied, compared, advanced and dereferenced through their own operators, never used before being set, never dereferenced when null, and never reinterpreted; element effects, exceptions, memory and iterators are the same.",
 ["inputs", "configurations"], "the operations of P01, P02 (iterators), P03-P06 and P10-P13 from any state up to the bounds, with a self-relative pointer whose representation depends on its own address",
 "Tests use one fancy pointer type that wraps a raw pointer, so byte-wise copies or raw-pointer shortcuts still work; and only with a few states.",
 SEQF + [f for f in FL if "static" not in f] + [I + "private.hpp"], [("to_address, pointer_traits::pointer_to, rebinds of allocator pointers", I + "private.hpp and each header"), ("segment table of pointers to segments", I + "segmented_vector.hpp, " + I + "segmented_devector.hpp")], (), PUB)
prop("P27", "Elements are moved, not copied, and arguments keep their value category",
 "emplace, emplace_back, emplace_front, emplace_hint, try_emplace and insert_or_assign construct from the arguments with exactly the value category they were passed with (lvalues stay lvalues, const stays const, rvalues are moved from). Operations never copy an element they could move: relocations, erasures, insertions of rvalues, moves and swaps make no copies of elements whose move cannot throw, and other operations copy no more elements than their arguments denote, so that move-only elements work wherever documented.",
 ["inputs", "configurations"], "every operation, every state and argument up to the bounds, every value category and two kinds of element (copyable, move-only)",
 "An lvalue passed on where an rvalue was meant compiles and gives equal contents for copyable test elements; tests count no copies.",
 SEQF + FL + [I + "private.hpp"], [("std::forward chains emplace -> emplace_aux -> construct_at_a", "all headers")], (), PUB)
prop("P10", "Every operation is memory safe and respects object lifetimes",
 "During any valid operation or history of operations on any container, no memory outside the container's storage (or its arguments) is read or written, no indeterminate value decides anything, no storage is used after it was released, released twice or leaked, every element is constructed exactly once before it is used and destroyed exactly once, no object is moved bytewise or assigned to before construction, moved-from values never remain as elements, and the element's own overloaded operators (unary &, comma, braced construction) are not used by accident. After the containers are destroyed nothing is left.",
 ["inputs", "histories", "configurations"], "every operation with all arguments from any state up to the bounds, and all histories of two operations; copyable, copy-only and move-only elements that watch their own life time; inline sizes 0, 1, 2, 3, 5, segment sizes 1 to 4",
 "A sanitizer run sees only the executions the tests perform; which element is constructed, assigned or destroyed depends on the exact combination of size, position, count and spare storage.",
 SEQF + FL + [I + "private.hpp"], [("construct/destroy/uninitialized_* helpers", I + "private.hpp"), ("storage bookkeeping of every modifier", "all headers")], (), PUB)
prop("P28", "Containers work with allocators whose size types are narrow",
 "With a conforming allocator whose size_type and difference_type are narrower than std::size_t and std::ptrdiff_t, every container that takes an allocator compiles and behaves as with the usual types: every operation has the same effect, containers can be filled exactly up to max_size(), growing near that limit never wraps around, and a count or length above max_size() is refused with std::length_error and changes nothing. (Counts and lengths must be representable in the size_type; ranges longer than that are not covered.)",
 ["inputs", "histories", "configurations"], "every operation from any state up to the bounds with a 16-bit size_type; every 8-bit container size, operation and count near the limit with an 8-bit one",
 "The tests' allocators all use std::size_t, so arithmetic that silently goes through another type, or overflows only at the limit of the size_type, is never seen.",
 SEQF + [f for f in FL if "static" not in f] + [I + "private.hpp"], [("calculate_new_capacity, max_size, check_capacity_and_throw and growth", "each header"), ("allocate/deallocate helpers", I + "private.hpp")], (), PUB)
