#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the prose stays reviewable)."""
import json, pathlib
I = "/verif"
H = "include/stdx/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": [H + f if not f.startswith("include") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = [{"name": "state", "meaning": state}]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "cx_vector is a faithful bounded std::vector",
 "Over any sequence of operations that stays within its capacity, stdx::cx_vector<T,N> holds exactly the elements a std::vector would hold after the same sequence: same size, same order in forward, const and reverse iteration, same values through operator[], get<I> and back(), and the same references and values returned by push_back and pop_back. resize_and_overwrite hands the callback the storage with the current elements in place plus the capacity and adopts the size it returns; clear empties the vector. size, empty, full and capacity always agree with that content, and two vectors compare equal exactly when their contents are equal.",
 ["histories", "inputs"],
 "every sequence of within-capacity operations, every capacity including 0 and 1, every element value, arguments that alias elements of the vector itself",
 "Unit tests exercise one or two short hand-written histories per operation; wrong bookkeeping typically needs particular combinations such as pop then push of an alias, a shrink by resize_and_overwrite, or comparing vectors whose dead slots differ.",
 ["cx_vector.hpp"],
 [("push_back/pop_back/resize_and_overwrite", "stdx::cx_vector members"), ("operator==", "friend comparing live elements only"), ("begin/end/rbegin/rend", "iteration over live prefix")],
 "public accessors after every operation", "the storage array and the current element count")

prop("C02", "cx_queue is a faithful bounded FIFO",
 "Over any sequence of push and pop operations that respects the bounds, stdx::cx_queue<T,N> returns elements from pop in exactly the order they were pushed, none lost, duplicated or altered, however many times the indices have wrapped. front() and back() always refer to the oldest and newest held element, references returned by push denote the pushed element, clear empties the queue, and size, empty, full and capacity agree with the number of elements held.",
 ["histories", "inputs"],
 "every sequence of within-bound operations over every capacity, including long histories that wrap the ring many times and clear in the middle of a wrap",
 "A ring buffer goes wrong only at specific wrap positions and fill levels reached by longer histories than a test writes out by hand.",
 ["cx_queue.hpp"],
 [("push/pop/front/back/clear", "stdx::cx_queue members"), ("wrap-around of the push and pop positions", "stdx::cx_queue push and pop")],
 "public accessors and returned values", "ring storage, push position, pop position, element count")

prop("C03", "Contract violations panic exactly once, before any damage",
 "With the default safe policies, pushing to a full cx_queue or reading/popping an empty one, and pushing or inserting a node that still has list links into an intrusive_list or intrusive_forward_list, calls the user's panic handler exactly once with the message for that violation, before the container is changed; a handler that leaves by an exception finds container and node exactly as they were and usable afterwards. Operations within contract never call the handler, custom over/underflow policies are consulted with the true size and capacity before each operation, and STDX_PANIC/panic deliver their message and runtime arguments to the user's handler (run-time and compile-time messages alike). With no handler supplied, panicking has no effect.",
 ["histories", "fault_sequences", "inputs"],
 "every history of container operations with contract violations injected at arbitrary points, for each container, policy and panic entry point",
 "Tests check that a violation on a fresh container reaches the handler; they cannot settle that no legal history reaches it, nor that state survives a violation injected at an arbitrary point of a history.",
 ["panic.hpp", "cx_queue.hpp", "detail/list_common.hpp", "intrusive_list.hpp", "intrusive_forward_list.hpp"],
 [("STDX_PANIC/panic and panic_handler", "panic.hpp"), ("safe_overflow_policy", "cx_queue.hpp"), ("checked node policy", "detail/list_common.hpp")],
 "the user's panic_handler specialisation and the containers' public accessors")

prop("C04", "cx_map, cx_set and cx_multimap are faithful associative containers",
 "Over any sequence of within-capacity operations, cx_map, cx_set and cx_multimap hold exactly the associations of std::map, std::set and std::map<K,std::set<V>>: keys are unique, the last assignment to a key wins, erase removes exactly the named key or value and reports how many it removed, and lookup, contains, iteration, size, empty and full reflect exactly that content. insert_or_assign, put and insert report whether something new was added, merge adds exactly the missing keys, pop_back removes and returns one held entry, and erasing the last value of a multimap key removes the key.",
 ["histories", "inputs"],
 "every sequence of within-capacity operations, every key and value including ones that alias stored entries, every capacity, including maps held at full capacity and erase/insert churn",
 "Erase compacts storage, so errors need particular positions (first, last, only element), full containers or reuse of a slot; tests only sample a few short histories over distinct keys.",
 ["cx_map.hpp", "cx_set.hpp", "cx_multimap.hpp"],
 [("insert_or_assign/put/erase/get/contains/pop_back", "cx_map.hpp"), ("insert/erase/merge/contains/pop_back", "cx_set.hpp"), ("insert/put/erase/get/contains", "cx_multimap.hpp")],
 "returned values and public accessors after every operation", "unordered slot array plus a count")

prop("C05", "Intrusive lists stay well formed and in order",
 "Over any history of push, pop, insert, remove and clear on stdx::intrusive_list and intrusive_forward_list, with either node policy, iterating visits exactly the nodes a std::list would hold, once each and in order, and terminates; front, back, empty and pop results agree with it. Iterating over a const list gives read-only access to the nodes. insert places the node immediately before the given position (including end), remove takes out exactly the given node, and a node that has left a list through the default policy can be inserted again into any list.",
 ["histories"],
 "every sequence of list operations over a pool of nodes shared by several lists, both list kinds and both node policies, nodes re-used after removal by pop, remove or clear",
 "Link corruption shows only after particular multi-step histories (insert at end with a recycled node, removing head/tail/only node, moving nodes between lists) that hand-written tests sample sparsely.",
 ["intrusive_list.hpp", "intrusive_forward_list.hpp", "detail/list_common.hpp"],
 [("push_front/push_back/pop_front/pop_back/insert/remove/clear", "intrusive_list.hpp"), ("push_front/push_back/pop_front/clear", "intrusive_forward_list.hpp"), ("node policies", "detail/list_common.hpp")],
 "iteration, front/back/empty and pop results after every operation", "head/tail pointers and node links")

prop("C06", "bitset behaves as a mathematical set of N bits",
 "For every size, storage element type and history of operations, stdx::bitset<N,Storage> shows exactly the bits std::bitset<N> would show after the same construction, set, reset, flip (single, range and whole), bitwise, difference and shift operations, whatever the shift amount; bits at or above N are never observable. all, any, none, count, size, empty, comparison, indexing, to<T>, to_natural and lowest_unset (N when full) agree with that content, and for_each, transform_reduce and their variants visit exactly the set (or unset, or all) indices below N once each in increasing order.",
 ["inputs", "histories", "configurations"],
 "every N from 0 up across storage-element boundaries, each storage element type, every operand value and shift amount, every history of mutations before each observation",
 "Padding bits, element-boundary carries and shifts across element boundaries only misbehave for particular N, storage and operand combinations; tests check a handful of sizes and freshly built values.",
 ["bitset.hpp", "detail/bitset_common.hpp"],
 [("mutators and range mutators", "bitset.hpp set/reset/flip"), ("shift and bitwise operators", "bitset.hpp"), ("for_each and transform_reduce", "bitset.hpp iteration helpers"), ("string and integer constructors", "bitset.hpp")],
 "public accessors compared with an independent model", "array of storage elements, last one partially used")

prop("C07", "type_bitset and enum-sized bitsets index by the right name",
 "In a type_bitset over any list of types (repeats included) every operation named by a type affects and reports exactly that type's bit: construction, set, reset, flip, indexing, bitwise operators, shared comparisons and counts agree with a bitset over the distinct types in order, and for_each visits exactly the set (or unset) types with their index, once each, in order. A bitset sized by an enumeration accepts enumerators as positions and hands enumerators to iteration callbacks, meaning the same bits as their underlying values.",
 ["programs", "inputs", "histories"],
 "every list of types of any length including repeated ones, every operation history over it, every enumeration-sized bitset",
 "The type-to-bit mapping is computed at compile time per type list; tests instantiate a couple of short lists with distinct types.",
 ["bitset.hpp", "detail/bitset_common.hpp"],
 [("type_bitset", "bitset.hpp"), ("enum-sized bitset iteration argument", "bitset.hpp / detail/bitset_common.hpp")],
 "public accessors and iteration callbacks")

prop("C08", "Atomics are linearizable and race free",
 "When any number of threads operate on one stdx::atomic or stdx::atomic_bitset, every operation appears to take effect at a single instant between its call and return: each read-modify-write returns the value immediately before its own effect, increments, bit sets, resets and flips are never lost or applied twice, and loads never see values no operation produced. Operations given the default or an acquire/release ordering synchronise, so data published before a releasing operation is visible, without data race, to a thread whose acquiring operation observed it.",
 ["schedules", "histories"],
 "every interleaving of concurrent operations by several threads, for every value type, bitset size and atomic-type override",
 "A single-threaded unit test cannot tell an atomic read-modify-write from a load followed by a store, and the shipped suite does not build these headers here at all.",
 ["atomic.hpp", "atomic_bitset.hpp"],
 [("fetch_*/exchange/++/--/compound operators", "atomic.hpp"), ("set/reset/flip returning the previous bits", "atomic_bitset.hpp")],
 "returned values recorded at the client boundary; ThreadSanitizer on published plain data")

prop("C09", "Atomics honour type, alignment and memory-order configuration",
 "Used from one thread, every operation of stdx::atomic<T> and stdx::atomic_bitset<N> returns and leaves the value the corresponding std::atomic or std::bitset operation would: fetch-style and exchange operations and post-increment give the previous value, compound operators and pre-increment the new one, bitset mutators the previous bits, and bits at or above N are never observable. The object's storage has the size and alignment selected by the user's atomic_type/alignment_of configuration, and each operation performs one underlying atomic access carrying exactly the memory order the caller passed (sequentially consistent by default).",
 ["inputs", "histories", "configurations"],
 "every operation history and value for integral, bool, enum and pointer value types, every bitset size, with and without configuration overrides, every memory order argument",
 "These headers need a dependency that is absent here, so the shipped suite does not build them; even upstream a test cannot see which memory order reached the hardware primitive.",
 ["atomic.hpp", "atomic_bitset.hpp"],
 [("delegation to the configurable atomic primitives", "atomic.hpp, atomic_bitset.hpp"), ("atomic_type_t / alignment_of", "atomic.hpp, atomic_bitset.hpp")],
 "a recording stand-in for the configurable atomic primitive layer plus returned values")

prop("C10", "Bit utilities compute exactly the specified bits",
 "For every argument, stdx's bit_pack/bit_unpack (mutually inverse, most significant first), bit_destructure, bit_mask and bit_mask-from-runtime bounds, bit_size, smallest_uint, byteswap, to_be/to_le/from_be/from_le, bit_cast, popcount, countl/r_zero/one, rotl/rotr, has_single_bit, bit_ceil/bit_floor/bit_width return what their mathematical definition (and, where one exists, the <bit> facility of the same name) says. This holds for all unsigned widths and scalar types accepted, without undefined behaviour, in every language mode and whether or not the standard library supplies the facility.",
 ["inputs", "configurations"],
 "all values of every accepted integral type (boundary values and random 64-bit values), every mask bound pair, rotation counts of any sign, every combination of pack/unpack widths, C++20 and C++23 modes, library-supplied and built-in implementations",
 "Tests sample a few constants in one language mode, so the fallback implementations used in other configurations are never run at all.",
 ["bit.hpp"],
 [("bit_pack/bit_unpack/bit_destructure", "bit.hpp"), ("bit_mask family", "bit.hpp"), ("standard-library fallbacks", "bit.hpp conditional blocks")],
 "return values against independently computed ones, UBSan")

prop("C11", "byterator reads and writes exactly the addressed bytes",
 "For every buffer, offset and history of moves, a stdx::byterator denotes one byte position: increments, arithmetic, differences and all comparisons behave as for a raw byte pointer, and peek, read and write of any trivially copyable value transfer exactly the sizeof(V) bytes at the position, unaligned or not, changing no other byte. read, write and advance move by exactly the bytes concerned, peek moves nothing, and aligning or skipping by a type's size moves to the documented position and nowhere else.",
 ["inputs", "histories"],
 "every buffer length, starting offset and alignment, every operation history inside the buffer, every value type of 1 to 8 bytes and user types",
 "Alignment and partial-width errors depend on the address and on neighbouring bytes; tests use a few aligned arrays and cannot notice an extra byte read or written beside the value.",
 ["byterator.hpp"],
 [("peek/read/write/advance families", "byterator.hpp"), ("advance_to_alignment", "byterator.hpp"), ("iterator operators", "byterator.hpp")],
 "buffer contents and address after each operation; AddressSanitizer around exactly sized buffers")

prop("C12", "optional mirrors std::optional without a separate flag",
 "For every value type with a tombstone and every history of operations, stdx::optional behaves as std::optional for all values except the tombstone itself: engagement, dereference, value, value_or, emplace, assignment, copy/move, reset, comparisons (empty orders before any value), and transform, and_then, or_else in all value categories call their function exactly when std::optional would and give the same result, an exception thrown by the function included (tuple-like values being unpacked into the function's arguments). The multi-argument transform calls its function exactly when all arguments are engaged, and the object is no larger than the value it holds.",
 ["inputs", "histories"],
 "every operation history over scalars, enums, pointers, floating point values (infinities and NaN included), tuple-like and user types with custom tombstones, move-only values",
 "Whether a value is mistaken for the tombstone, or a moved-from or emplaced value becomes disengaged, depends on particular values and histories; tests sample a few.",
 ["optional.hpp"],
 [("tombstone traits", "optional.hpp tombstone_traits"), ("monadic operations", "optional.hpp transform/and_then/or_else"), ("comparisons", "optional.hpp")],
 "public accessors next to a std::optional executing the same history; call counters in the callbacks")

prop("C13", "cached and latched values are computed at most once",
 "For every history of accesses, a stdx::cached or stdx::latched object invokes its function exactly once at the first demand for the value, never on construction or on has_value, and never again while populated, and every accessor yields the value of the most recent computation. cached::reset makes the next demand compute again, cached::refresh computes a new value at that moment, and a computation that throws leaves the object unpopulated so that the next demand computes again.",
 ["histories", "fault_sequences"],
 "every history of value, dereference, arrow, has_value, reset, refresh, copy and move on lvalue, const and rvalue objects, with failures injected into the function at any invocation",
 "The guarantee is about invocation counts over whole histories, including after exceptions and resets; tests look at one access pattern.",
 ["cached.hpp", "latched.hpp"],
 [("lazy population", "cached.hpp, latched.hpp"), ("reset/refresh", "cached.hpp")],
 "invocation counter and unique return values of the user function")

prop("C14", "tuple core agrees with std::tuple",
 "For every element list and every value, a stdx::tuple or indexed_tuple gives the same elements as std::tuple through get by index, by type and by user-supplied index key, operator[], structured bindings and apply, with matching value category and constness (a const rvalue tuple counts as a const lvalue), and refers to the original object for reference elements. Equality and ordering are lexicographic and agree with std::tuple (including across convertible element types and partially ordered values), fold_left computes ((init op a) op b) op c, fold_right computes a op (b op (c op init)), join is fold_left starting from the first element, tail drops exactly the first element, and one_of compares equal exactly when some element does.",
 ["inputs", "programs"],
 "tuples of any length including 0 and 1, with value, reference, const, empty, move-only and duplicate-category elements, every element value, both supported compilers and language modes",
 "Tests fix a few element lists and values, and run with one compiler, while element access and comparison have compiler-specific implementations.",
 ["tuple.hpp", "tuple_destructure.hpp"],
 [("element access", "tuple.hpp get/operator[]/apply"), ("comparison operators", "tuple.hpp"), ("folds and join", "tuple.hpp"), ("indexed_tuple, apply_indices, one_of", "tuple.hpp")],
 "values, types and call orders observed by generated programs next to std::tuple")

prop("C15", "Tuple algorithms compute the documented result, in order",
 "For every input tuple, each tuple algorithm (tuple_cat, cons/snoc/push, filter, transform, for_each, enumerate, all_of/any_of/none_of, multi-tuple apply, cartesian_product, sort, chunk, gather, unique, to_sorted_set, to_unsorted_set, contains_type and the unrolled_ forms for arrays) returns exactly the elements its documentation defines, each carrying its original value, in the documented order. Functions are invoked once per element or zipped element group (up to the shortest input), in increasing index order, short-circuiting only for the quantifier algorithms.",
 ["programs", "inputs"],
 "every list of element types (repeats, empties, references, move-only), every length, every number of zipped tuples, std and stdx tuple-like inputs",
 "Results depend on compile-time index computations over the whole type list; tests hand-write a few short lists.",
 ["tuple_algorithms.hpp", "tuple.hpp"],
 [("index computation for cat/filter/sort/chunk/gather", "tuple_algorithms.hpp"), ("zip invocation", "tuple_algorithms.hpp transform/for_each/enumerate")],
 "element identities and callback order recorded by seed-generated programs against a reference model of the algorithm")

prop("C16", "No object is leaked, destroyed twice, or used after move",
 "Through any use of the containers, optional, cached/latched, tuple and its algorithms, bind_front/bind_back, call_by_need and for_each_n_args, every object is constructed before use and destroyed exactly once, also when a user function or a copy throws part-way; no owned resource is lost, duplicated or read after being moved from, and rvalue arguments are moved rather than copied where the element type is move-only. Values taken out of these components are the values put in; an operation that adds an element or copies a component and fails because a copy threw leaves the other elements with their values.",
 ["histories", "inputs", "fault_sequences"],
 "every history over element types that track construction, copy, move and destruction, including move-only and throwing types",
 "Tests use trivially copyable elements or look at a single operation; a leak or double move is invisible without lifetime accounting across a history.",
 ["cx_vector.hpp", "cx_queue.hpp", "cx_map.hpp", "optional.hpp", "tuple.hpp", "tuple_algorithms.hpp", "functional.hpp", "call_by_need.hpp", "for_each_n_args.hpp", "cached.hpp", "latched.hpp"],
 [("forwarding and element construction", "tuple.hpp, tuple_algorithms.hpp, functional.hpp"), ("element storage", "cx_* containers, optional.hpp")],
 "lifetime registry inside the element type and AddressSanitizer")

prop("C17", "Iterator algorithms call the function as documented",
 "For every input range, stdx::transform, transform_n, for_each, for_each_n, for_each_butlast, for_each_butlastn, initial_medial_final, transform_reduce and transform_reduce_n invoke the given functions exactly once per documented element, in order, zipping all supplied ranges, write exactly the documented outputs, and return the documented iterators, functions and value. Empty ranges, single elements and counts larger than the range (for the but-last forms) are handled without touching anything outside the range, for every iterator category.",
 ["inputs"],
 "every range length including 0, 1 and 2, every number of zipped ranges, every n, input/forward/bidirectional/random-access iterators, stateful functions",
 "Off-by-one errors and category-specific paths show only for particular lengths and iterator categories; tests use a few arrays of length 3 or so.",
 ["algorithm.hpp", "numeric.hpp"],
 [("for_each_butlast(n) category dispatch", "algorithm.hpp"), ("initial_medial_final", "algorithm.hpp"), ("transform_reduce", "numeric.hpp")],
 "recorded calls, outputs and returned positions compared with a model; AddressSanitizer on exactly sized ranges")

prop("C18", "Integer conversions and size arithmetic are exact",
 "saturate_cast returns, for every value and every pair of integral types, the destination value nearest to the source value; as_signed/as_unsigned preserve the bits; to_underlying preserves the value. sized<T>{n}.in<U>() is the smallest number of U that can hold n objects of T, is_aligned_with<T> is true exactly for multiples of alignof(T), and the user-defined literals (_c, _idx, _z8 to _z64, _k, _M, _G, _ki, _Mi, _Gi, _lsb, _msb, _len and the truth literals) denote exactly the number written, in any base and with any digit separators.",
 ["inputs", "programs"],
 "all values of all 8-bit pairs exhaustively, boundary and random values of all pairs of integral types, all sizes and element types, literals in every base",
 "Saturation has a separate code path for each relation of width and signedness and fails only near particular bounds.",
 ["numeric.hpp", "utility.hpp", "udls.hpp", "type_traits.hpp"],
 [("saturate_cast", "numeric.hpp"), ("sized/udl_sized/is_aligned_with/as_signed", "utility.hpp"), ("literal parsing", "udls.hpp")],
 "return values against wide-integer arithmetic, UBSan and library assertions")

prop("C19", "rollover arithmetic is modular and comparison is windowed",
 "For every unsigned width and every pair of values, rollover_t addition, subtraction, multiplication, negation, increment, decrement and their compound assignments give the result modulo 2^width, division and remainder act on the stored values, and equality is equality of values. cmp_less(a,b) is true exactly when b is ahead of a by between 1 and half the range inclusive, so a sequence that advances by less than half the range always compares in order across wrap-around. Mixed-width conversion keeps the value modulo the destination width, and no operation has undefined behaviour.",
 ["inputs", "histories"],
 "all 8-bit pairs exhaustively, boundary and random pairs for 16, 32 and 64 bits and mixed operand types, advancing sequences that wrap",
 "Wrap errors and promotion overflow happen only for particular operand magnitudes per width; tests use small values.",
 ["rollover.hpp"],
 [("arithmetic operators", "rollover.hpp"), ("cmp_less family", "rollover.hpp"), ("conversion between widths", "rollover.hpp")],
 "results against modular arithmetic in wider integers, UBSan")

prop("C20", "span views exactly the elements it was built from",
 "A stdx::span built from a pointer and size, iterators, C array, std::array, container or another span of static or dynamic extent refers to exactly the elements std::span would: same data, size, size_bytes, front, back, indexing and iteration (forward and reverse). first, last and subspan, static and dynamic, as_bytes and as_writable_bytes designate exactly the elements std::span designates, writes through a span reach the underlying elements, and no other memory is touched.",
 ["inputs", "configurations"],
 "every source kind, length, offset and count within bounds, static and dynamic extents, const and non-const elements of several sizes",
 "Static-extent, dynamic-extent and conversion paths are separate overloads; tests use one or two lengths each.",
 ["span.hpp"],
 [("constructors and deduction guides", "span.hpp"), ("first/last/subspan/as_bytes", "span.hpp")],
 "addresses and values compared with std::span; AddressSanitizer")

prop("C21", "Function wrappers forward every argument faithfully",
 "For every callable and argument list, bind_front and bind_back (stored callable or compile-time callable form) call the function once per invocation with bound and call-time arguments in the documented order, with the value category and constness implied by the wrapper and the arguments, and return its result; for_each_n_args calls the function once per batch of n consecutive arguments in order. with_result_of evaluates its function exactly when converted and elides the result; overload, unary_plus, dereference, safe_identity and forward_like select and forward exactly as specified, and safe_identity never yields a dangling reference.",
 ["inputs", "programs"],
 "every arity, split between bound and supplied arguments, value category, batch size and callable kind",
 "Category-specific overloads (const, lvalue, rvalue) are each separate code; tests exercise a few combinations with int arguments.",
 ["functional.hpp", "for_each_n_args.hpp", "utility.hpp"],
 [("bind_front/bind_back call operators", "functional.hpp"), ("batching", "for_each_n_args.hpp"), ("overload/forward_like", "utility.hpp")],
 "argument values and categories recorded inside the called function")

prop("C22", "call_by_need calls each function on the documented arguments",
 "For every tuple of functions and tuple of arguments, call_by_need calls each function exactly once, in order, with the arguments its documented search selects (the leftmost starting argument and the longest run of consecutive arguments from it that the function accepts), and returns a tuple of the non-void results in function order followed by the arguments no function used, in order. Arguments and results keep their values and references keep referring to the original objects.",
 ["programs", "inputs"],
 "every combination of function signatures and argument types, numbers of functions and arguments including none, lvalue and rvalue tuples, void-returning functions, reference arguments",
 "The search is a compile-time computation over all signatures; tests hand-write a dozen combinations.",
 ["call_by_need.hpp"],
 [("argument window search", "call_by_need.hpp"), ("result assembly and void filtering", "call_by_need.hpp")],
 "calls recorded by seed-generated programs against an independent implementation of the documented search")

prop("C23", "ct_string is an exact compile-time string",
 "For every content, a ct_string equals character for character the string it was built from (literal, string_view, character pack), reports its size, emptiness and capacity, iterates forwards and backwards over exactly those characters and converts back to an equal string_view. Concatenation, comparison (also across lengths, and between constant-wrapper forms), split at the first occurrence of a character and conversion to and from character-pack types agree with the same operations on std::string.",
 ["programs", "inputs"],
 "strings of every length including empty, any characters including embedded separators and NULs where representable, all operand-length combinations",
 "Every length is a distinct instantiation and each operation a compile-time computation; tests sample a few words.",
 ["ct_string.hpp"],
 [("construction and concatenation", "ct_string.hpp"), ("split", "ct_string.hpp"), ("cts_t operations", "ct_string.hpp")],
 "seed-generated programs printing results compared with std::string")

prop("C24", "ct_format output matches run-time formatting",
 "For every format string and argument list supported by the freestanding configuration, ct_format substitutes compile-time arguments (integers, characters, strings, types, enumerators, nested results) into exactly the text run-time formatting would give, leaves specifiers of run-time arguments in place, and returns the run-time arguments in order with unchanged values. Substituting those arguments into the result string gives the same text as formatting everything at run time, num_fmt_specifiers counts the specifiers, and names and positions recorded for named arguments designate the right argument or text.",
 ["programs", "inputs"],
 "format strings with any number, position and nesting of specifiers, any mix of compile-time and run-time arguments, escaped braces in literal text before run-time specifiers and at the end, custom output string types",
 "Splitting, nesting and offset computations depend on the whole string and argument list; tests cover a few dozen combinations.",
 ["ct_format.hpp", "detail/fmt.hpp"],
 [("specifier splitting", "ct_format.hpp"), ("format_result concatenation and argument collection", "ct_format.hpp"), ("freestanding formatter", "detail/fmt.hpp")],
 "seed-generated programs printing the result string and arguments, compared with run-time formatting")

prop("C25", "counting_iterator and range helpers count exactly",
 "A counting_iterator denotes one value: dereference, increments, decrements, addition, subtraction, difference and all comparisons behave as on that value, so any algorithm over a pair of counting_iterators sees each value of the half-open interval exactly once, in order. make_array applies its function or wrapper to exactly the indices 0..N-1 in order (or holds exactly its arguments converted to the common type), ct_capacity reports the compile-time capacity of every container, array and span, and priority tags select the highest viable overload.",
 ["inputs", "programs"],
 "every start, length and step for all supported integral types, every array length and callable form, every container kind",
 "Tests iterate one short interval and one or two array lengths.",
 ["iterator.hpp", "array.hpp", "priority.hpp", "ranges.hpp"],
 [("counting_iterator", "iterator.hpp"), ("ct_capacity", "iterator.hpp"), ("make_array overloads", "array.hpp"), ("priority_t", "priority.hpp")],
 "visited values compared with plain integer loops")

prop("C26", "Compile-time and run-time evaluation agree, with no undefined behaviour",
 "Every operation documented as constexpr gives, when evaluated as a constant expression, the same observable result as when the same history is executed at run time, on every supported compiler, language mode and optimisation level; in particular it stays usable in constant expressions for every in-contract history. No in-contract history executes undefined behaviour in either evaluation.",
 ["inputs", "histories", "configurations"],
 "every in-contract history over containers, bitsets, bit utilities, tuples, optional, strings, algorithms, rollover, span, in {GCC, Clang} x {C++20, C++23} x {optimised, unoptimised}",
 "Tests evaluate a few expressions either at compile time or at run time in one configuration; several operations have different branches for the two evaluations.",
 ["bit.hpp", "bitset.hpp", "cx_vector.hpp", "cx_queue.hpp", "cx_map.hpp", "cx_set.hpp", "cx_multimap.hpp", "tuple.hpp", "optional.hpp", "numeric.hpp", "algorithm.hpp", "rollover.hpp", "span.hpp", "ct_string.hpp", "intrusive_list.hpp"],
 [("is_constant_evaluated and compiler-specific branches", "tuple.hpp, bit.hpp"), ("constexpr members", "all listed headers")],
 "digests of seed-generated workloads evaluated by the compiler's constant evaluator (which rejects undefined behaviour) and by sanitized binaries")

prop("C27", "Environment queries and type maps return the right binding",
 "For every sequence of make_env, extend_env and append_env, querying an environment yields the value most recently bound to that query (later environments override earlier ones, other bindings untouched), an environment composed of others answers from the first of them that knows the query, and a query with a default yields that very default exactly when the query is unbound. For every type_map, forward and reverse lookups by type or value return the paired type or value of that key and the stated default exactly when the key is absent.",
 ["programs", "histories"],
 "every chain of environment constructions, any number of queries and bindings, every map size and key/value kind, present and absent keys",
 "Lookups are compile-time list computations; tests check two or three bindings.",
 ["env.hpp", "utility.hpp"],
 [("make_env/extend_env/append_env/query", "env.hpp"), ("type_map lookups", "utility.hpp")],
 "seed-generated programs printing looked-up bindings against a dictionary model")

prop("C28", "Type introspection reports the true shape of a type",
 "For every function, member function, lambda or function object, return_t, args_t, decayed_args_t, nth_arg_t, obj_arg_t and arity describe exactly its signature. nth_t/nth_v, conditional_t, type_or_t, is_specialization_of, is_same_template, is_same_unqualified, is_function/callable traits, is_structural, is_complete, same_any/same_none, the tuple-protocol traits and concepts, the range concept, the concepts defined in place of missing standard ones, template_for_each and apply_sequence, make_integer_sequence, type_as_string, template_base and enum_as_string report exactly what their definitions say for every type given. ct, CX_VALUE, CT_WRAP and CX_WRAP hold exactly the value or type they are given and pass run-time values through unchanged; expand_t undoes shrink_t.",
 ["programs", "configurations"],
 "every signature shape (cv/ref/qualified members, any arity), every type category and template, list lengths up to dozens, both compilers",
 "Each trait is a set of partial specialisations, one per shape; tests name one instance per shape on one compiler.",
 ["function_traits.hpp", "type_traits.hpp", "concepts.hpp", "ranges.hpp", "ct_conversions.hpp", "utility.hpp"],
 [("function_traits specialisations", "function_traits.hpp"), ("type predicates and list access", "type_traits.hpp"), ("names from pretty functions", "ct_conversions.hpp")],
 "seed-generated programs printing trait results, compared with the shapes they were generated from")

prop("C29", "The macros expand to every argument, once, in order",
 "STDX_MAP(f, args...) expands to f(arg) for every argument, exactly once each, in order and separated by commas, and to nothing when there are no arguments; each argument - a value, type, name or any other tokens, parenthesised ones with commas in them included - reaches f unchanged, for any number of arguments up to at least 360. STATIC_ASSERT with a true condition is an expression that yields true, wherever it is written and for every compile-time format string and arguments. FWD(x) passes on the same object with the value category and constness it was received with.",
 ["inputs", "programs", "configurations"],
 "every argument list of 0 to 360 arguments none of which begins with three parenthesised groups in a row, every place a comma-separated list may stand, every compile-time format argument, every reference category, both compilers and language modes",
 "The map is recursion forced through nested rescans, so it breaks at particular lengths or leading tokens; tests use at most three arguments.",
 ["pp_map.hpp", "static_assert.hpp", "utility.hpp"],
 [("STDX_MAP", "pp_map.hpp"), ("STATIC_ASSERT", "static_assert.hpp"), ("FWD", "utility.hpp")],
 "seed-generated programs whose expansions are recorded and compared with the argument lists they were generated from")

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
