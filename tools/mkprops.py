#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the hand-written property list, kept as Python for readability)."""
import json, os
V = "enum_vec/src/vec_u32/mod.rs"
VALL = ["enum_vec/src/vec_u8/mod.rs", "enum_vec/src/vec_u16/mod.rs", V, "enum_vec/src/vec_u64/mod.rs",
        "enum_vec/src/vec_u128/mod.rs", "enum_vec/src/smallvec_u32/mod.rs"]
L = "enum_like/src/lib.rs"; D = "enum_like_derive/src/lib.rs"; S = "enum_set/src/lib.rs"
ST = [{"name": "storage", "meaning": "blocks holding packed discriminants; words and length past the live elements are unspecified", "where": V + " struct EnumVec"},
      {"name": "num_elements", "meaning": "logical length", "where": V + " struct EnumVec"}]
P = []
def p(id, title, stmt, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Element-wise use of a packed vector is indistinguishable from a plain vector",
  "After any history of creating (empty, with capacity), pushing, popping, reading, overwriting, swapping, truncating, clearing, reserving and shrinking, a packed vector holds exactly the elements, length and emptiness a plain vector would, and each call returns the same value (none when popping an empty vector or reading past the end). "
  "Overwriting or swapping out of range panics and changes nothing. This holds for every block width, every number of variants the block can hold, every length, and every leftover from earlier, longer contents.",
  ["inputs", "histories", "configurations"], "all histories of element-wise calls, all 6 storage back ends, all element bit widths, all lengths",
  "The unit tests run a handful of fixed histories on 3 or 4 element types of 1-7 bits; most width/block combinations and histories that reuse stale storage are never executed.",
  VALL, [("get_raw_unchecked / set_raw_unchecked / block_index", V), ("push, pop, grow_if_needed, truncate, reserve, shrink_to_fit", V)],
  ["len", "is_empty", "get", "pop", "iter", "to_vec"], ST)
p("C02", "Inserting and removing at any position shifts elements like a plain vector",
  "In any history that inserts, removes or swap-removes at arbitrary positions, mixed with other operations, every element before the position stays put, every later element moves by exactly one place (or the last one fills the hole for swap-remove), and the removed element is returned. "
  "A position out of range panics and leaves the vector unchanged.",
  ["inputs", "histories", "configurations"], "all positions and lengths, all histories mixing positional edits with others, all back ends and bit widths (including widths that leave unused bits in a block and widths equal to the block)",
  "Tests insert and remove at three positions of short vectors with 2 and 5-bit elements whose leftover bits happen to be zero; cross-block shifts after other edits are never checked.",
  VALL, [("insert: slow in-block shift, then whole-block shift left", V), ("remove: slow in-block shift, then whole-block shift right", V), ("swap_remove", V)],
  ["get", "to_vec", "return value of remove / swap_remove"], ST)
p("C03", "Bulk transfers copy every element exactly once, in order",
  "Extending, collecting, converting from and to a plain vector or slice, filling, resizing, appending one packed vector to another, and splitting one off give exactly the elements, in order, that plain vectors would hold; after appending, the source is empty and reusable, and after splitting, both halves are independently usable. "
  "This holds whatever the source iterator's size hint promises, at every alignment of either vector, and a split position past the end panics and changes nothing.",
  ["inputs", "histories", "configurations"], "all source/target lengths and alignments, all legal size hints, all histories before and after the transfer, all back ends and bit widths",
  "Tests append once at an unaligned length, never call split_off, and only extend from exact-size sources.",
  VALL, [("append: aligned block concatenation vs element loop", V), ("split_off", V), ("extend / extend_with_value / resize / from_elem / from_slice / From<Vec> / Into<Vec> / enum_vec!", V + ", enum_vec/src/lib.rs")],
  ["to_vec", "len", "get of both vectors"], ST)
p("C04", "Bulk membership queries agree with an element-by-element scan",
  "Asking whether any element equals a value answers true exactly when some element of the vector equals it, and asking whether all elements equal a value answers true exactly when every element does (true for an empty vector). "
  "The answer depends on nothing but the current elements: not on bits left over in partially filled or spare blocks, on unused high bits of a block, nor on how the vector was produced.",
  ["inputs", "histories", "configurations"], "all contents, lengths, query values, stale storage, back ends and bit widths",
  "Tests query vectors of one repeated value plus one constant check per block width; borrow propagation between neighbouring fields and dirty trailing blocks are not explored.",
  VALL, [("any: haszero word trick, last-block mask", V), ("all: word compare with valid_mask, last-block mask", V)], ["any", "all"], ST)
p("C05", "Equality, hash, clone and debug output depend only on the elements",
  "Two packed vectors of the same type compare equal exactly when they have the same elements in the same order, equal vectors hash equally, and a vector prints like the list of its elements, whatever histories, capacities or leftover storage bits the two have. "
  "A clone equals its original, can be used for anything the original can, and changing either never affects the other.",
  ["inputs", "histories", "configurations"], "all pairs of histories reaching equal or different contents, all back ends and bit widths",
  "Tests compare to_vec of freshly built vectors; equality and hashing of vectors with stale storage, and clones of shrunk or split vectors, are not exercised.",
  VALL, [("PartialEq / Eq", V), ("Hash", V), ("derive(Clone)", V), ("Debug", V)], ["==", "Hash", "Clone", "{:?}"], ST)
p("C06", "Iterators over a packed vector yield each element once from both ends",
  "Borrowing and consuming iterators yield the vector's elements exactly once in order, for every interleaving of taking from the front, from the back and skipping n from either end (any n up to the largest integer), and after exhaustion keep yielding nothing. "
  "At every point the size hint, the exact length and the final count equal the number of elements still to come.",
  ["inputs", "histories"], "all interleavings of next, next_back, nth, nth_back, count, last, fold on all lengths, for iter(), &v and v.into_iter(), all back ends",
  "Tests only run whole for loops and collects from the front.",
  VALL, [("EnumVecIter", V), ("EnumVecIntoIter", V)], ["next", "next_back", "nth", "size_hint", "len", "count"])
p("C07", "Packed storage is as dense as promised, after every operation",
  "An element type with N variants takes ceil(log2 N) bits, as many elements as fit whole share one block, and once shrunk to fit a vector of n elements occupies exactly the blocks needed and no more heap than that. "
  "No operation makes a vector hold, even temporarily, more than a constant factor above the blocks that its largest content or requested capacity so far needs.",
  ["inputs", "histories", "configurations"], "all variant counts from 2 up to the block limit, all block widths, all lengths and histories",
  "One test checks that 4-bit elements survive a 4-bit store; no test looks at how many blocks or bytes are used.",
  VALL + ["README.md"], [("BITS_PER_ELEM / ELEMS_PER_BLOCK / blocks_for_elements", V), ("extend_with_value block fill", V), ("shrink_to_fit / fix_storage", V)],
  ["storage().len()", "capacity()", "bytes requested from the allocator"], ST)
p("C08", "Promised capacity is real: no reallocation within it, no heap when inline",
  "Creating with capacity n or reserving n more gives a reported capacity that covers them, and adding elements by any operation while the length stays within the reported capacity requests no memory and does not move the storage. "
  "Operations that remove elements never lower the capacity, shrinking never takes it below the length, and the small-vector variant uses no heap at all as long as its contents and requested capacity have always fitted in its four inline 32-bit blocks.",
  ["inputs", "histories", "configurations"], "all requested capacities, all histories of growth within capacity, all back ends and widths",
  "Two doc examples check capacity() >= n once each; allocations are never observed.",
  VALL, [("with_capacity / capacity / reserve / grow_if_needed", V), ("Storage = SmallVec<[u32; 4]>", VALL[5])],
  ["capacity()", "allocator calls", "storage().as_ptr()"], ST)
p("C09", "Safe calls never touch memory that is not theirs or not initialised",
  "No sequence of safe calls on a packed vector makes it read or write outside its initialised storage, leak or double-free it, or decode a discriminant outside the element type's range. "
  "After every call its storage covers all its elements.",
  ["inputs", "histories", "configurations"], "all sequences of safe calls including rejected ones, all back ends and widths",
  "One regression test guards one past segfault; the unchecked accesses rely on an invariant that no test states for the other constructors and transfers.",
  VALL, [("unchecked block access", V + " get_raw_unchecked/set_raw_unchecked"), ("storage.len() >= blocks_for_elements(len)", V)],
  ["std's debug precondition checks", "guarded allocator", "from_discr arguments", "storage().len()"], ST)
p("C10", "A panic in caller code leaves the vector valid and accounted for",
  "If the caller's iterator panics or ends early while a vector is being extended, the vector afterwards holds its old elements followed by exactly the items produced; if a for-each callback panics, the elements visited before it are updated and the rest are unchanged; if a retain predicate panics, the length is unchanged and every element is one the vector held. "
  "In every case the vector remains fully usable, and nothing leaks.",
  ["fault_sequences", "histories", "configurations"], "every callback invocation as the panic point, every legal or broken size hint, every alignment, followed by any use",
  "No test panics inside a callback or iterator.",
  VALL, [("Extend::extend", V), ("for_each", V), ("retain", V)], ["to_vec after catch_unwind", "later operations"], ST)
p("C11", "Raw discriminant and storage access follows the documented layout",
  "The raw discriminant read at a valid index equals the conversion of the element there; a raw write changes that element only; storage reserved for n more elements makes raw writes and a raised length valid for all of them, after which they read back as written. "
  "The exposed blocks hold elements consecutively from the lowest bits up, so overwriting one block changes exactly the elements that live in it, and lowering and raising the length again restores the elements in between.",
  ["inputs", "histories", "configurations"], "all indices, lengths, back ends and widths",
  "Two tests use the raw interface on a one-element bool vector.",
  VALL, [("get_raw_unchecked / set_raw_unchecked / set_len / storage / storage_mut", V), ("block_index", V)],
  ["get", "storage()", "get_raw_unchecked"], ST)
p("C12", "All storage back ends are interchangeable",
  "The same history of calls gives the same return values, elements, panics, equality, membership answers and iteration on every storage back end (8, 16, 32, 64, 128-bit and small-vector), for every element type that all of them accept; the choice shows only in memory use. "
  "For the small-vector variant this includes histories that move between inline and heap storage in either direction.",
  ["histories", "configurations"], "all histories run in lockstep on the six back ends",
  "Each back end is a generated copy of the code with its own copy of the same few unit tests; nothing compares them with each other.",
  VALL + ["enum_vec/gen.sh"], [("generated copies of vec_u32", "enum_vec/gen.sh")], ["every return value", "to_vec"], ST)
p("C13", "In-place filtering and updating visit each element once, in order",
  "Retaining with a predicate calls it once per element in order with the element's current value and keeps exactly the accepted elements in their original order; updating in place calls the function once per element in order and stores what it leaves, for every element and every new value. "
  "Neither affects any other element nor depends on leftover storage.",
  ["inputs", "histories", "configurations"], "all accept/reject patterns and all update functions over small alphabets, all lengths, back ends and widths",
  "One doc example each.",
  VALL, [("retain", V), ("for_each", V)], ["callback arguments", "to_vec"], ST)
p("C14", "Built-in type mappings are one-to-one onto 0..N",
  "For every type built from unit, bool, Option, Result, tuples of 1 to 32 items and arrays of 0 to 32 items, over any conforming item types, the declared number of variants equals the number of distinct values, every value maps to its own number below it, and mapping back returns the same value. "
  "The conversions never panic on valid input, whatever the item type's layout.",
  ["programs", "inputs"], "all types of the grammar to a nesting bound, all their values",
  "Tests check about 20 types of bool and unit; tuples beyond 4 and arrays of anything but bool are never checked.",
  [L], [("impl EnumLike for (), bool, Option, Result, tuple_impls!, array_impls!", L)], ["NUM_VARIANTS", "to_discr", "from_discr"])
p("C15", "Discriminant numbering of composite types is the documented positional one",
  "Numbers are stable and compositional: false is 0 and true 1; Some(x) has x's number and None comes last; Ok values come first and Err values follow in order; tuples and arrays count with the first item varying fastest; so an array, the tuple of the same items and nested pairs agree. "
  "Data written as numbers by one build is read back identically by another.",
  ["programs", "inputs"], "all types of the grammar to a nesting bound, all their values",
  "Ordering is asserted for bool arrays and one nested option only.",
  [L], [("to_discr arithmetic of Option, Result, pair", L), ("reverse_idx macros", L)], ["to_discr", "from_discr", "values order"])
p("C16", "The values iterator enumerates every value once, in number order",
  "Iterating over the values of a type yields the value numbered 0, 1, 2 and so on up to the last, once each, then nothing; skipping n (any n up to the largest integer), taking the last and counting agree with stepping one at a time from any point. "
  "At every point the size hint and exact length equal the number of values still to come.",
  ["inputs", "histories"], "all interleavings of next, nth, last, count, size_hint on types of 0 to many variants",
  "Tests step through a few types and call nth and last once from the start.",
  [L], [("impl Iterator for Values", L)], ["next", "nth", "last", "count", "size_hint", "len"])
p("C17", "Packed single values round-trip and order like their numbers",
  "Packing any value of a type with at most 256 (or 65536) variants into one (or two) bytes and reading it back gives the same value, for every value including the last one. "
  "The packed form has exactly that size, and its equality, ordering and hashing are those of the value's number.",
  ["inputs", "configurations"], "all values of types with variant counts around every limit",
  "One value of each packed type is tested.",
  [L], [("PackedU8 / PackedU16", L)], ["new", "get", "==", "cmp", "hash", "size_of"])
p("C18", "Derived mappings are one-to-one for every type definition",
  "For every enum or struct whose fields all have mappings (unit, named and positional fields, empty types, generic parameters, explicit discriminants, any order of variants), the derived mapping declares exactly as many variants as the type has values, gives each value its own number below that, and maps every number back to the value it came from. "
  "Types with no values get zero variants.",
  ["programs", "inputs"], "all definitions up to 3-4 variants and fields over a small field alphabet, all their values",
  "The example crate checks about 40 hand-written definitions, mostly of one-valued fields.",
  [D], [("all_variants_of / MatchArm", D), ("from_discr_body / to_discr_body / num_variants_product", D), ("add_trait_bounds", D)],
  ["NUM_VARIANTS", "to_discr", "from_discr"])
p("C19", "Derived numbering follows declaration order",
  "A derived field-less enum numbers its variants 0, 1, 2 in declaration order, ignoring explicit discriminants; an enum with data numbers its field-less variants first and then each data variant's values contiguously in declaration order; within a struct or variant the first field varies fastest, exactly as in the tuple of the same fields. "
  "Numbers with no corresponding value are rejected with a panic for enums.",
  ["programs", "inputs"], "all definitions up to 3-4 variants and fields over a small field alphabet, all their values and the numbers just past the end",
  "No test asserts a derived number except one should_panic.",
  [D], [("offset / range_high bookkeeping", D), ("generate_c_enum_code", D)], ["to_discr", "from_discr"])
p("C20", "Types that cannot be packed are rejected at compile time, all others accepted",
  "Using a packed vector compiles exactly when the element type has at least two variants and each value fits in one block of the chosen width; packing a single value compiles exactly when the type has at most 256 (or 65536) variants. "
  "Accepted types at the limits store and return their extreme values correctly.",
  ["programs", "configurations"], "all back ends times variant counts around every power-of-two limit, times element-touching operations",
  "The tests note that compile-fail checks are not supported; the limits are never exercised.",
  VALL + [L], [("ERROR_TOO_MANY_VARIANTS / ERROR_ZERO_SIZED", V), ("CHECK_LIMIT_VARIANTS", L)], ["compiler accept/reject", "get after push"])
p("C21", "An enum set behaves like a mathematical set of values",
  "After any history of inserting, removing, clearing, extending, collecting, shrinking and cloning, membership, size, emptiness and iteration agree with an ordinary set of values, and insert and remove report whether they changed it. "
  "Iteration yields each member once in number order with a size hint that bounds the members still to come.",
  ["inputs", "histories", "configurations"], "all histories over types whose numbers straddle the 32-bit words, plus small types",
  "One unit test inserts and removes one value; the source says it is 'assumed to work because of its simplicity'.",
  [S], [("EnumSet insert / remove / contains / len / iter / WrapIter", S)], ["contains", "len", "iter", "insert/remove results", "size_hint"])
p("C22", "Set algebra on enum sets is correct for every pair of sets",
  "Union, intersection, difference and symmetric difference, whether iterated lazily or applied in place, and the disjoint, subset and superset tests give the mathematically right answer for every pair of sets, including sets of different internal sizes, empty sets and a set with itself. "
  "Lazy forms leave both sets unchanged and in-place forms change only the receiver.",
  ["inputs", "histories"], "all pairs of sets over small types and over numbers straddling the words, in every internal size their history can leave",
  "One example test uses union and symmetric difference on two card decks.",
  [S], [("union / intersection / difference / symmetric_difference and *_with", S), ("is_disjoint / is_subset / is_superset", S)], ["iterators", "contains", "predicates"])
p("C23", "Enum set identity and conversions depend only on members",
  "Two enum sets are equal, order and hash alike exactly according to their members in number order, whatever histories or internal sizes they have; a clone is equal and independent; debug output lists the members in order. "
  "Converting to and from the underlying bit set keeps exactly the members' numbers.",
  ["inputs", "histories"], "all pairs of histories over small and word-straddling types",
  "Two equality checks in one example; ordering, hashing and bit-set conversion are untested.",
  [S], [("derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)", S), ("into_bit_set / from_bit_set / get_ref", S), ("Debug", S)], ["==", "cmp", "Hash", "{:?}", "get_ref"])
p("C24", "Any mappable type survives every container unchanged",
  "For every type composed of built-in and derived mappings that the container accepts, storing each of its values in a packed vector of any back end, in an enum set, or packed as a single value, alone or next to any other value, and reading it back gives that same value. "
  "The crates in this repository work together: one type definition serves all containers.",
  ["programs", "inputs", "configurations"], "all composed types of a bounded grammar, all (pairs of) values, all containers",
  "The containers are tested with two or three hand-written types each and against a published copy of the trait crate, not the one in the repository.",
  VALL + [L, D, S], [("EnumLike contract between the crates", L)], ["get", "contains", "iter", "PackedU8::get"])
p("C25", "Growing a packed vector is amortised, and steady use never reallocates",
  "However a vector is grown a few elements at a time (pushing, inserting, extending with or without a size hint, appending, resizing, reserving before raw writes), by whatever mixture of these and of calls that remove elements, repeated any number of times, its storage is reallocated only a number of times logarithmic in the largest length ever held or asked for. "
  "So once the largest length stops growing, going on in the same way (without shrinking) never reallocates again.",
  ["histories", "configurations"], "all repeated cycles of growing and removing calls, all back ends and widths",
  "No test observes allocations; a growth policy that reallocates every time passes everything and is quadratic.",
  VALL, [("grow_if_needed, reserve, extend, append, extend_with_value, insert", V)], ["capacity()", "storage().as_ptr()", "allocator calls"], ST)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
