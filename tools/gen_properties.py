#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

A = "include/array.hpp"; C = "include/container.hpp"

prop("C01", "Array elements and buffers are released exactly once, in bounds",
     "Whatever sequence of constructions, copies, moves, assignments, resizes, reallocations and swaps an array goes through, every element it constructs is destroyed exactly once and every buffer it allocates is freed exactly once. No array operation reads, writes, constructs or destroys an element outside the buffer or in the wrong lifetime state, including for empty, moved-from and self-assigned arrays.",
     ["inputs", "histories"], "all element types, all sizes (0 included), all operation sequences built from the public operations",
     "test_array only builds four two-element arrays and never assigns, moves or resizes one; leaks and double frees need every path and size.",
     [A], [("uninitialized_new/uninitialized_delete pairing", A + ": Array"), ("_destroy_elements before release", A + ": Array::operator=, resize, reallocate, ~Array")],
     [("_ptr", "owned raw buffer", A), ("_size", "number of live elements at the start of the buffer", A)],
     ["constructor/destructor calls of the element type", "operator new/delete calls"])
prop("C02", "A throwing element operation never corrupts an array",
     "If constructing, copying or assigning an element throws during any array operation, no element that was not constructed is destroyed, nothing is destroyed or freed twice, and nothing constructed or allocated by the failed operation is leaked. An array that existed before the failing call remains valid: it can still be read over its size, assigned and destroyed.",
     ["inputs", "fault_sequences"], "every element operation of every array operation as the throwing point, every element index",
     "No test uses an element type that throws; the failing index ranges over the array size.",
     [A], [("construct-then-commit order and clean-up on the throwing path", A + ": Array constructors, operator=, resize, reallocate")])
prop("C03", "Array construction, copy, move, fill, assign and resize give the right contents",
     "Each array constructor, assignment, conversion, fill, assign and generator yields exactly the requested number of elements, element i coming from element i of the source (or from the given value or generator), in a buffer of its own, leaving a copied source untouched. A move transfers the elements and leaves the source empty, swap exchanges two arrays completely, and resize keeps the first min(old,new) elements and default-initialises, or copies the given value into, all the others.",
     ["inputs", "histories"], "all element types and values, all sizes, all source sequences",
     "test_array checks one conversion for compiling and two printouts; no element value is compared.",
     [A], [("_uninitialized_fill / _uninitialized_generate / fill loops", A), ("resize, reallocate, swap, move members", A)])
prop("C04", "Array element access, bounds checking and comparison",
     "Checked access throws out_of_range exactly when the index is not below the size, and otherwise refers to the same element as unchecked access; first, last, begin and end delimit exactly the stored elements, in const and non-const form alike, and size and emptiness agree. Two arrays compare equal exactly when they have the same size and pairwise equal elements, and inequality is the negation of equality.",
     ["inputs"], "all sizes, indices and element values",
     "No test calls checked access, comparison, front or back.",
     [A], [("at, operator[], front, back, begin, end, size, empty", A), ("operator==, operator!=", A)])
prop("C05", "Shared arrays free their storage exactly when the last owner goes",
     "All copies of a shared array refer to the same elements; its storage, bookkeeping included, is freed exactly once, when the last copy is destroyed or assigned from a different array, and never while a copy remains. Assigning an array to itself or to a copy of itself changes nothing, and a new shared array holds the requested number of elements with the requested values.",
     ["inputs", "histories"], "all histories of construction, copy, assignment, destruction; all sizes and values",
     "No test instantiates a shared array.",
     [A], [("reference count increments/decrements", A + ": SharedArray copy constructor, operator=, destructor")],
     [("_count", "number of owners", A)])
prop("C06", "LRU cache membership, lookups and capacity bound",
     "A cache refuses a maximum size of zero and never holds more than its maximum number of entries. Inserting a label already present, or looking up or asking the age of an absent label, throws and leaves the cache unchanged; otherwise a label is present exactly from its insertion until its eviction, and looking it up returns the value inserted with it.",
     ["inputs", "histories"], "all labels and values, all capacities, all operation histories",
     "test_lru_cache runs seven fixed short histories on capacities up to 4.",
     ["include/lru_cache.hpp"], [("put, get, has_label, age, current_size, maximum_size", "include/lru_cache.hpp")],
     [("_elements", "label to (age,value)", "include/lru_cache.hpp")])
prop("C07", "LRU cache ages and eviction follow least-recent use exactly",
     "After any history the ages of the n entries are exactly 0..n-1 ordered from most to least recently inserted or successfully looked up, with no two equal. Inserting into a full cache evicts exactly the least recently used entry and inserting into a non-full one evicts nothing; membership, age and size queries never change any age.",
     ["inputs", "histories"], "all histories over all labels and capacities, by induction on one operation from any reachable state",
     "Tests sample two recency scenarios; the invariant must survive every history, including repeated lookups of the newest or the oldest entry.",
     ["include/lru_cache.hpp"], [("age update loops in get and put", "include/lru_cache.hpp"), ("victim selection in put", "include/lru_cache.hpp")],
     [("age", "recency rank of an entry", "include/lru_cache.hpp")])
prop("C08", "LRU cache insertion is safe for aliased values and failing copies",
     "Inserting stores the value that was passed in even when it is a reference to a value held by the cache itself and about to be evicted. If copying the label or value throws during an insertion, the cache is left exactly as before the call.",
     ["inputs", "fault_sequences"], "every insertion on full and non-full caches, arguments referring into the cache or not, every copy as the throwing point",
     "Tests store ints, which neither throw nor dangle visibly.",
     ["include/lru_cache.hpp"], [("order of copy, eviction and ageing in put", "include/lru_cache.hpp")])
prop("C09", "Lazy objects are produced on first use, once, and reused",
     "Constructing or copying a lazy object never calls its generator; the first access calls it exactly once, every later access to that object returns a reference to the same result without calling it again. If the generator throws nothing is stored, so a later access calls it again; the produced object is owned and released by the lazy object.",
     ["inputs", "histories"], "all access histories, all generators, including throwing ones",
     "The single test accesses a lazy object once.",
     ["include/lazy.hpp"], [("null check, reset from generator, dereference", "include/lazy.hpp: Lazy::operator()")])
prop("C10", "Appending and concatenating lists preserves order and terminates",
     "Appending or concatenating adds exactly the given element or all elements of the given sequence, in order, after the existing ones, and terminates even when a list is appended to itself; catenation of two lists, or a list and an element, leaves its operands unchanged. Lists and linked lists built from a count, a value, another sequence or a range hold exactly those elements in order.",
     ["inputs"], "all element types and values, all lengths, receiver and argument distinct or the same object",
     "Tests build a few literal lists and never append one list to another or to itself.",
     [C], [("List/LinkedList append, concatenate, constructors; catenate", C)])
prop("C11", "Element-wise application and collection conversions",
     "Applying a function over a list, or element-wise over one or two lists, yields one result per element (or pair), in order, each from the matching argument; lists of different lengths are rejected in every build configuration. Converting between arrays, lists and sets keeps every element (in order for sequences) and applying a function to a set yields the set of results.",
     ["inputs", "configurations"], "all functions, element values and lengths; debug and release builds",
     "Only make_list of a set is tested, on one set.",
     [C], [("apply, elementwise, make_array, make_list, make_set, Set to List conversion", C)])
prop("C12", "Set operations compute the set-theoretic result",
     "Union (adjoin, join), difference (difference, remove), intersection (intersection, restrict), membership, disjointness and subset queries give exactly the set-theoretic result, member and free forms alike, and modify only the set they are called on; the free subset query is true iff the first set is contained in the second, the member one iff the argument is contained in the receiver. In-place forms are well defined when both operands are the same object.",
     ["inputs"], "all element types, all pairs of sets (and lists where accepted)",
     "No test calls any of these operations.",
     [C], [("Set members adjoin, remove, restrict, contains, subset, disjoint; free functions", C)])
prop("C13", "Map lookups never invent or lose entries",
     "Read-only lookups (get, value, const indexing) return the stored value for a present key and throw for an absent one without changing the map. Insert, adjoin and join add absent keys and keep the existing value of present ones; keys, values, has_key, key removal and key restriction report, remove or keep exactly the entries named, leaving their arguments unchanged.",
     ["inputs"], "all keys, values and maps, keys present and absent",
     "Tests look up one present and one absent key and restrict one map.",
     [C], [("Map members; join, insert, restrict_keys", C)])
prop("C14", "Duplicate detection reports exactly the repeated elements",
     "A list is reported to have unique elements exactly when no two of its positions hold equal elements. The set of duplicate elements contains exactly the values that occur at two or more positions.",
     ["inputs"], "all lists of any length",
     "Neither function is tested.",
     [C], [("unique_elements, duplicate_elements", C)])
prop("C15", "Collections print every element once, in order, correctly delimited",
     "Printing a list, array, shared array, linked list, set, map, pair or tuple, or writing a sequence through the generic writers, emits the opening delimiter, each element exactly once in iteration order with one separator between consecutive elements and none before the first or after the last, and the closing delimiter, also when empty. Caller-chosen delimiters are honoured and the collection is not modified.",
     ["inputs"], "all collections of any length including 0 and 1, all delimiters",
     "Tests print two arrays without looking at the text.",
     [C, "include/stlio.hpp"], [("operator<< overloads", C), ("write_sequence, write_pointer_sequence, write_map_sequence, write_map_pointer_sequence, write_coefficient_map_sequence, write_tuple", "include/stlio.hpp")])
prop("C16", "Reading a sequence is strict, clean and always ends",
     "Reading a delimited sequence (separator and closing delimiter being different) first empties the target, then stores exactly the items read, in order, and consumes through the closing delimiter and no further; a missing opening delimiter, separator, closing delimiter or item makes it throw a stream failure. Nothing that was not successfully read is accepted or stored, no uninitialised character is inspected, and reading terminates on every input, including empty and truncated input.",
     ["inputs", "fault_sequences"], "all input texts and delimiters, stream failure at any extraction",
     "No test reads from a stream.",
     ["include/stlio.hpp"], [("read_sequence, operator>> for vectors", "include/stlio.hpp")])
prop("C17", "Binary words: lexicographic order, prefix, subword and editing",
     "Ordering of binary words is the lexicographic one with proper prefixes first; a word is reported a prefix (subword) of another exactly when its bits occur at the start (contiguously at some position) of it. Appending adds the given bit or all bits of the given word after the existing ones, terminating also for self-append; erasing a prefix removes exactly the first min(n,size) bits, setting the last bit changes only it, and the byte count is the size divided by eight rounded up.",
     ["inputs"], "all words of any length, all bit patterns",
     "No test includes the header.",
     ["include/binary_word.hpp"], [("operator<, is_prefix, is_subword, append, erase_prefix, set_back, bytes", "include/binary_word.hpp")])
prop("C18", "Binary word text input and output",
     "A binary word prints as its bits in order as 0/1 digits, or 'e' when empty, and leaves the stream's formatting as it found it. Reading a digit string (directly or via the string constructor) replaces the old contents with exactly the leading run of 0/1 digits, leaves the following character unread, never inspects a character that was not read, and succeeds also when the digits end at the end of input.",
     ["inputs", "fault_sequences"], "all words, all input texts, all prior stream formats and states",
     "No test includes the header.",
     ["include/binary_word.hpp"], [("operator<<, operator>>, make_binary_word", "include/binary_word.hpp")])
prop("C19", "Handles behave as values: mutation through one never shows in another",
     "Mutable access obtained from a handle always refers to an object no other handle shares: the handle first replaces its object by a clone. Read-only access never clones and refers to the managed object itself; copies share the object, a wrapped object or pointer is the one managed, and casting or extracting a handle to a type its object does not have throws bad_cast and never yields a wrong or null reference.",
     ["inputs", "histories"], "all accessors, all interfaces and dynamic types, all histories of copying and mutating",
     "No test includes the header.",
     ["include/handle.hpp"], [("make_unique in every non-const accessor", "include/handle.hpp: Handle"), ("dynamic_handle_cast, dynamic_handle_extract, dynamic_pointer_extract", "include/handle.hpp")],
     [("_ptr", "shared managed object", "include/handle.hpp")])
prop("C20", "Iterator facades derive consistent operators from the core operations",
     "For every iterator built on the facade, equality, ordering, difference, increment, decrement, addition and subtraction are the ones implied by the core equal, distance, advance and dereference operations: i<j iff the distance from i to j is positive, j-i is that distance, i+n advances a copy by n and i-n by -n, in-place forms return the iterator itself, and post-increment returns the old position. A pair iterator moves, compares and dereferences both components together.",
     ["inputs", "programs"], "all derived iterators and offsets",
     "No test includes the header.",
     ["include/iterator.hpp"], [("IteratorFacade operators, IteratorCoreAccess, PairIterator", "include/iterator.hpp")])
prop("C21", "Coded variants dispatch to exactly the alternative with the stored code",
     "For every number of alternatives up to sixteen, visiting a coded variant calls the visitor exactly once, with the alternative whose code equals the stored code, and returns its result; a code that belongs to no alternative aborts instead of calling the visitor. Constructing from an alternative stores its code and the alternative test is true exactly for the stored code.",
     ["inputs", "programs"], "all arities 0..16, all codes, all visitors",
     "No test includes the header; seventeen hand-written switch tables.",
     ["include/variant.hpp", "include/variant.inl.hpp"], [("coded_visit overloads", "include/variant.inl.hpp"), ("CodedVariant", "include/variant.hpp")])
prop("C22", "Randomisers draw from exactly the requested interval",
     "Each call returns a fresh draw from a uniform distribution whose bounds are exactly the given minimum and maximum, of the matching integer or real kind, using the shared generator. The generator is seeded from entropy when it is created and never re-seeded or copied by a draw, and a randomiser can be destroyed safely through its interface.",
     ["inputs", "histories"], "all bounds and value types, all call histories",
     "Tests only print ten draws.",
     ["include/randomiser.hpp"], [("RandomiserBase constructor and get, RandomGenerator", "include/randomiser.hpp")])
prop("C23", "Stopwatches measure the interval from restart to the last click",
     "Creating or restarting a stopwatch sets start and click to the same instant, so its duration is zero until a click; a click moves only the click instant to the current time. The duration is click minus start in the chosen unit, elapsed seconds is the same interval in double precision without rounding to that unit, queries change nothing, and no adjustment of the system clock makes either negative.",
     ["histories", "configurations"], "all histories of restart, click and queries, all duration units, all clock adjustments",
     "The test measures one 10 ms interval with one unit.",
     ["include/stopwatch.hpp"], [("restart, click, duration, elapsed_seconds, clock type", "include/stopwatch.hpp")])
prop("C24", "Stack traces release what they acquire and never break the error stream",
     "With tracing disabled, printing a stack trace does nothing; with it enabled, it prints one line per captured frame, within the capture buffer, and frees exactly once the symbol table and every demangled name. It never inserts a null string into the error stream, whatever symbols the frames have.",
     ["inputs", "configurations"], "both build configurations, all stacks, frames with and without symbol names",
     "The tests are built only with tracing disabled and check nothing.",
     ["src/stack_trace.cpp"], [("backtrace, backtrace_symbols, __cxa_demangle, free", "src/stack_trace.cpp")])
prop("C25", "Assertion macros throw exactly when the condition is false",
     "Every assertion and precondition macro evaluates its condition exactly once and throws runtime_error, with a message naming the condition, exactly when it is false; the error text is evaluated only then. Only the debug variants are disabled, entirely, by NDEBUG; all others behave the same in every build, and the fail and not-implemented macros always throw.",
     ["inputs", "configurations"], "every macro, condition true and false, NDEBUG defined and undefined",
     "Tests hit the failing branch of three macros in one configuration.",
     ["include/macros.hpp"], [("HELPER_ASSERT, HELPER_ASSERT_MSG, HELPER_ASSERT_EQUAL, HELPER_PRECONDITION(_MSG), HELPER_DEBUG_*, HELPER_FAIL_MSG, HELPER_NOT_IMPLEMENTED, HELPER_THROW", "include/macros.hpp")])
prop("C26", "Every failing test check is counted exactly once and reported",
     "Each test macro increments the failure counter by exactly one and writes an ERROR line to the error stream when its check fails (condition false, values differ, wrong or missing or unexpected exception), and leaves the counter unchanged when it succeeds; warnings and skips never count as failures. Expressions are compared as written, whatever operators the arguments contain.",
     ["inputs", "programs"], "every test macro, passing and failing outcome, throwing and non-throwing expressions",
     "The test suite relies on these macros: a macro that stops counting makes every test pass.",
     ["include/test.hpp"], [("HELPER_TEST_* macros", "include/test.hpp")],
     [("HELPER_TEST_FAILURES", "number of failed checks, the exit status of test programs", "include/test.hpp")])
prop("C27", "Type traits and concepts decide exactly the relation they name",
     "The type-level facilities (all-same, one-of, index-of, first/second, invocability, convertibility, constructibility, assignability, derivation, arithmetic and operator concepts, result types) hold or yield exactly for the types the named relation says, for builtin, class, const and reference types alike.",
     ["programs"], "all argument types, by cases over the primary and partial specialisations",
     "No test exercises the traits directly.",
     ["include/metaprogramming.hpp"], [("traits, aliases and concepts", "include/metaprogramming.hpp")])
prop("C28", "Index ranges enumerate exactly start up to but not including stop",
     "A range reports its start, stop, size and unit stride, indexes to start+i, and iterating it yields start, start+1, ..., stop-1 exactly, and nothing when start equals stop; a one-argument range starts at zero.",
     ["inputs"], "all start <= stop",
     "No test includes the header.",
     ["include/range.hpp"], [("Range, range, RangeIterator, begin, end", "include/range.hpp")])
prop("C29", "Tuple accessors select the named component by reference",
     "The first to fifth accessors return the component at that position of a pair or tuple, as the same reference category a direct access gives. The lvalue pair and tuple makers refer to their arguments, in order, so assigning through them assigns the arguments.",
     ["programs"], "all component types and tuple sizes",
     "No test uses them.",
     ["include/tuple.hpp"], [("get_first..get_fifth, make_lpair, make_ltuple", "include/tuple.hpp")])
prop("C30", "Writable objects and strings render through their own writer",
     "Streaming a writable object, or any object with a suitable write operation, calls that operation exactly once on the given stream and returns that stream; a writer applied to an object streams that object with that writer. Converting a value to a string yields exactly the text that streaming the value produces.",
     ["inputs", "programs"], "all writable types, writers and values",
     "No test uses writable.hpp; to_string is not tested.",
     ["include/writable.hpp", "include/string.hpp"], [("operator<<, WriterInterface, Writer, IsWritable", "include/writable.hpp"), ("to_string, to_str, c_str", "include/string.hpp")])
prop("C31", "Every public header and template is usable on its own",
     "Each public header compiles when it is the only include, with both supported compilers and in debug and release configuration, and can be included in several source files of one program; every public operation and template can be instantiated and called for ordinary argument types, with nothing it needs left undefined.",
     ["programs", "configurations"], "all headers, all public templates, g++ and clang++, with and without NDEBUG",
     "Templates that no test instantiates are only parsed.",
     ["include/container.hpp", "include/array.hpp", "include/binary_word.hpp", "include/handle.hpp", "include/iterator.hpp", "include/writable.hpp", "include/variant.inl.hpp", "include/stlio.hpp", "include/metaprogramming.hpp"],
     [("template definitions and includes", "include/*.hpp")])
prop("C32", "Deprecation and once-only warnings are emitted once per site",
     "A once-only warning or a deprecation notice writes its message to the error stream the first time its site is reached and never again; the plain notification, warning and error macros write their message, with the right label, each time they are reached.",
     ["histories"], "all histories of reaching a site",
     "No test uses these macros.",
     ["include/macros.hpp"], [("HELPER_WARN_ONCE, HELPER_DEPRECATED, HELPER_NOTIFY, HELPER_WARN, HELPER_ERROR", "include/macros.hpp")])
prop("C33", "Index complements list exactly the missing indices in order",
     "For a strictly increasing array of indices below n, its complement is the strictly increasing array of exactly the other indices below n.",
     ["inputs"], "all n and all strictly increasing index arrays",
     "complement is not tested.",
     [A], [("complement", A)])
prop("C34", "Random draws are statistically uniform and independent",
     "Successive draws of a randomiser are uniformly distributed over its interval and independent of each other.",
     ["histories"], "all bounds, all seeds, all draw histories",
     "Distribution is a statement about long-run frequencies, not about one run.",
     ["include/randomiser.hpp"], [("standard engine and distributions", "include/randomiser.hpp")])
prop("C35", "Operations on distinct objects share no hidden mutable state",
     "Apart from the shared random generator, the once-only warning flags, the test counters and the standard streams that reports are written to, no operation reads or writes mutable state outside its operands and what they own or share by design. Operations on objects that share nothing therefore never influence each other, in any order or from any thread.",
     ["schedules", "histories"], "all operations of all headers on distinct objects, all interleavings",
     "Every test is single-threaded and short; hidden shared state shows only across objects.",
     ["include/randomiser.hpp", "include/lazy.hpp", "include/macros.hpp", "include/array.hpp", "include/lru_cache.hpp"], [("absence of mutable static storage outside the named places", "include/*.hpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
