#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable as text)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))


prop("C01", "A bounded cache forgets exactly the least recently used entry",
     """A cache created for n entries never holds more than n of them, and forgets an entry only when a new label is
     stored while it already holds n. The entry then forgotten is exactly the one whose last successful store or
     retrieval is the oldest. At all times the reported ages of the k resident labels are 0..k-1, ordered by how
     recently each label was last stored or retrieved.""",
     ["histories", "configurations"],
     "every capacity and every sequence of store / retrieve / query calls, successful and refused",
     """The tests run four fixed sequences of at most four stores and one retrieval; no test retrieves between
     evictions, so the recency order after mixed histories is never observed.""",
     ["include/lru_cache.hpp"],
     [("LRUCache::put ages every entry and erases the one of age maximum_size-1", "include/lru_cache.hpp put"),
      ("LRUCache::get ages the entries younger than the one retrieved", "include/lru_cache.hpp get")],
     [("_elements", "label -> (age, value)", "include/lru_cache.hpp"), ("_maximum_size", "capacity", "include/lru_cache.hpp")],
     ["has_label", "age", "current_size", "maximum_size"])

prop("C02", "Cache lookups return what was stored, and refused calls change nothing",
     """Retrieving a resident label returns the value given when that label was stored, whatever was stored, retrieved
     or forgotten in between, also when the stored value was itself a value retrieved from the cache. Queries, calls
     refused because the label is absent or already present, and a store that fails because copying the label or the
     value throws, leave every resident label, value and age as they were. A cache of capacity zero is refused.""",
     ["histories", "fault_sequences", "inputs"],
     "every history of calls, every aliasing of the stored value with a resident one, every point at which a copy of a label or value fails",
     """Tests retrieve one value once, never after an eviction, never with a value type whose copy can fail, and check
     refused calls only for the fact that something is thrown.""",
     ["include/lru_cache.hpp"],
     [("precondition and assertion checks before any change", "include/lru_cache.hpp get, age, put"),
      ("the new element is stored before the oldest is forgotten", "include/lru_cache.hpp put")],
     [("_elements", "label -> (age, value)", "include/lru_cache.hpp")],
     ["get", "age", "has_label", "exceptions"])

prop("C03", "Arrays behave as independent sequences of values",
     """After any history of constructions (by size, value, list, generator, range, copy, move, conversion), assignments,
     swaps, resizes, reallocations, fills and element writes, each array's size, elements, iteration, first and last
     element, checked access and comparisons are those the history implies, and changing one array never changes
     another. Resizing keeps the common prefix and fills new positions with the given value or a default one;
     reallocating to a different size gives default elements. Checked access throws exactly when the index is not
     below the size.""",
     ["histories", "inputs"],
     "every history over several arrays, every size including zero, arguments that alias the array itself",
     "The array tests contain no assertion at all: they construct three arrays and print two.",
     ["include/array.hpp"],
     [("placement-new element construction into raw storage, size/pointer pair", "include/array.hpp Array"),
      ("copy-or-reuse in copy assignment, pointer stealing in moves", "include/array.hpp operator=")],
     [("_size/_ptr", "length and storage", "include/array.hpp")],
     ["size", "empty", "operator[]", "at", "begin/end", "front/back", "operator==", "operator!="])

prop("C04", "Array elements and storage are released exactly once, even when copying fails",
     """Every element an array brings to life is destroyed exactly once, and all its storage is released, by the time the
     array is gone, whatever the history of construction, assignment, move, swap, resize and reallocation. If creating
     or assigning an element throws, the exception reaches the caller, no element or storage leaks and none is destroyed
     twice, and all arrays stay usable; a construction that fails leaves nothing behind, and a resize, a reallocation or
     a copy assignment between different sizes that fails leaves the array's contents unchanged. A size that no storage
     can hold is refused by an exception, with the same guarantees. All this also holds when the array assigned from is held
     by an element of the array assigned to, or the other way round.""",
     ["histories", "fault_sequences"],
     "every history over several arrays, every size, and every point at which an element's construction or assignment throws",
     "No test uses an element type that counts lifetimes or throws, and no test moves, resizes or reassigns an array.",
     ["include/array.hpp"],
     [("manual lifetime management with operator new and placement new", "include/array.hpp uninitialized_new, _destroy_elements, _uninitialized_fill")],
     [("_size/_ptr", "constructed elements and storage", "include/array.hpp")],
     ["constructor/destructor counts of the element type", "outstanding allocations", "exceptions"])

prop("C05", "Shared arrays alias their elements and release them with the last owner",
     """Copying or assigning a shared array makes both refer to the same elements: a write through any of them is seen
     through all of them and through no other array. The elements live as long as some shared array refers to them, and
     they and all bookkeeping storage are released exactly once, when the last one is destroyed or reassigned. A creation
     that fails, because an element cannot be made or there is no storage for so many, passes the exception on and leaves
     nothing behind. All this also holds for shared arrays held by elements of shared arrays.""",
     ["histories"],
     "every history of creation, copy, assignment (including self-assignment and assignment within one group), write and destruction over several shared arrays",
     "No test creates a shared array.",
     ["include/array.hpp"],
     [("reference count shared by all copies", "include/array.hpp SharedArray")],
     [("_count/_size/_ptr", "owners, length, elements", "include/array.hpp")],
     ["operator[]", "size", "begin/end", "element lifetimes", "outstanding allocations"])

prop("C06", "List building operations give exactly the sequence asked for",
     """Appending or concatenating an element or a sequence to a list (or linked list) adds exactly those elements at its
     end, in order, and terminates also when the list is appended to itself, and when the element or sequence is part of
     the list or of its elements; catenation leaves its operands unchanged and
     gives the first followed by the second. Applying a function to a list, or elementwise to one or two lists, calls it
     once per position in order and gives a list of the results in order. A list made from one value, from a count and a
     value, or from another sequence has exactly those elements.""",
     ["histories", "inputs"],
     "every history of list operations, all contents and lengths, the operands being the same object",
     "Tests only build one list from a set; append, concatenate, catenate, apply and elementwise are never called.",
     ["include/container.hpp"],
     [("append/concatenate loops", "include/container.hpp List, LinkedList"),
      ("catenate, apply, elementwise", "include/container.hpp")],
     [("the vector or linked list", "elements", "include/container.hpp")],
     ["size", "operator[]", "iteration", "return values", "calls made to the function argument"])

prop("C07", "Set operations are mathematical set algebra",
     """Adjoin, remove, restrict, join, intersection and difference (in place or as functions, with sets or sequences as
     second operand, also when both operands are the same object, or a sequence removed is held by an element of the set) give exactly the union, difference, intersection,
     union, intersection and difference of their operands, and functions returning a new set leave their operands
     unchanged. Membership and disjointness queries and the two-argument subset query (first inside second) are exact; the member subset query tells
     whether the set given as argument lies inside the receiver. Applying a function to a set gives the set of its images.""",
     ["inputs", "histories"],
     "all pairs of finite sets and sequences, all histories of in-place operations",
     "Tests only use a set as a key filter and as the source of a list; no set operation is tested.",
     ["include/container.hpp"],
     [("erase-while-iterating loops", "include/container.hpp Set::remove, Set::restrict, remove, restrict"),
      ("contains/subset/disjoint/intersection/difference/join", "include/container.hpp")],
     [("the ordered set", "members", "include/container.hpp")],
     ["iteration", "query results"])

prop("C08", "Map operations keep existing entries and report keys and values exactly",
     """Inserting, adjoining and joining add the missing keys and never change the value of a key already present (the
     first operand wins); only writing through the subscript or a value reference changes a value, and reading a missing
     key through a read-only map, or asking for its value, throws and changes nothing. Removing keys, and restricting to a
     set of keys, remove exactly those, respectively all others, with values untouched, also when that set is itself a value
     in the map. The key set and the value list
     are exact, the values in increasing key order.""",
     ["histories", "inputs"],
     "all maps, all histories of operations",
     "Tests look up two keys, convert one map and restrict one map; they check sizes and key presence, never that other entries survive.",
     ["include/container.hpp"],
     [("find-then-assert lookups", "include/container.hpp Map::get, value, operator[]"),
      ("insert/adjoin/join/remove_keys/restrict_keys", "include/container.hpp")],
     [("the ordered map", "key -> value", "include/container.hpp")],
     ["iteration", "get/value/has_key", "keys/values", "exceptions"])

prop("C09", "Container conversions and element classification preserve content",
     """Converting between arrays, lists, linked lists and sets keeps the elements and their order (increasing and without
     repetition for sets), converting each element once where element types differ. A sequence is reported as having unique elements exactly when no
     value occurs twice, and the reported duplicates are exactly the values occurring at least twice. The complement of
     an increasing list of indexes below n is the increasing list of all other indexes below n.""",
     ["inputs"],
     "all sequences, sets and index lists",
     "One test converts one set of three elements to a list; nothing else is called.",
     ["include/container.hpp", "include/array.hpp"],
     [("make_array/make_list/make_set and converting constructors", "include/container.hpp"),
      ("unique_elements/duplicate_elements", "include/container.hpp"), ("complement", "include/array.hpp")],
     [], ["return values"])

prop("C10", "Containers print in one fixed unambiguous format",
     """Writing an array, shared array, list, linked list, set, map, pair or tuple, or any range through the sequence
     writers with chosen delimiters, produces the opening delimiter, the elements' own text in iteration order separated
     by exactly one separator, and the closing delimiter, for every length including zero, nested to any depth.
     Writing changes neither the container nor the stream's formatting state; text conversion of any printable value
     gives exactly the text that printing it gives, and objects printed through the writable interface or a writer
     produce exactly what their write operation writes.""",
     ["inputs"],
     "all contents, lengths, nestings and delimiters",
     "The print tests have no assertion on the text produced.",
     ["include/container.hpp", "include/stlio.hpp", "include/string.hpp", "include/writable.hpp"],
     [("operator<< overloads", "include/container.hpp, include/stlio.hpp, include/writable.hpp"),
      ("write_sequence, write_pointer_sequence, write_map_sequence, write_map_pointer_sequence, write_coefficient_map_sequence, write_tuple", "include/stlio.hpp"),
      ("to_string/to_str", "include/string.hpp")],
     [], ["text written to the stream"])

prop("C11", "Reading a sequence accepts exactly well-formed text and rejects the rest",
     """Reading a sequence from text accepts exactly an opening delimiter, zero or more items separated by single
     separators, and a closing delimiter, with white space allowed between them; it replaces the previous contents by
     the items in order and leaves what follows the closing delimiter unread. Any other text, including text that ends
     early, raises an input failure and never hangs. The text written for a sequence reads back as an equal sequence.""",
     ["inputs"],
     "all input texts, all delimiters, all previous contents",
     "No test reads anything.",
     ["include/stlio.hpp"],
     [("read_sequence", "include/stlio.hpp"), ("operator>> for vectors", "include/stlio.hpp")],
     [("c, x", "look-ahead character and item", "include/stlio.hpp read_sequence")],
     ["contents after reading", "exceptions", "unread remainder of the stream"])

prop("C12", "A lazy object is created at most once, on first use, and then never changes",
     """The creating function is not called before the first access and, once it has succeeded, is never called again by
     the same lazy object: every access gives the same object. A creating function that throws passes its exception to the caller and is called
     again at the next access. Copies made before the first access create their own object, copies made after it share
     it, and each created object is destroyed exactly once, when the last lazy object holding it is gone.""",
     ["histories", "fault_sequences"],
     "every history of access, copy, assignment and destruction over several lazy objects, every subset of creations that fail",
     "The test accesses one lazy object once.",
     ["include/lazy.hpp"],
     [("null check before calling the function", "include/lazy.hpp operator()")],
     [("_obj", "the created object or none", "include/lazy.hpp")],
     ["number of calls of the creating function", "identity and lifetime of the object"])

prop("C13", "Handles have value semantics: a change through one is never seen through another",
     """Copying, assigning or moving handles transfers the value; reading never copies the object, and copies share it
     until changed. Any modification made through a handle's modifying access is seen by that handle from then on and
     never by any other handle, whatever was copied or assigned before, and objects are released exactly once, when no
     handle refers to them.""",
     ["histories"],
     "every history of creation, copy, move, assignment, conversion, read and modification over several handles, through every accessor",
     "No test uses handles.",
     ["include/handle.hpp"],
     [("copy of the object before modifying access", "include/handle.hpp make_unique"),
      ("shared ownership of the object", "include/handle.hpp Handle")],
     [("_ptr", "shared pointer to the object", "include/handle.hpp")],
     ["values through const and non-const accessors", "object lifetimes"])

prop("C14", "Dynamic handle casts succeed exactly when the held object has the type asked for",
     """Extracting a type from a handle or shared pointer, or casting a handle, succeeds exactly when the held object is
     of that type, derives from it, or (for extraction) wraps it, and then gives access to that very object with its current value. Otherwise
     a bad-cast exception is raised (a null pointer for pointer extraction), a diagnostic is written to the error stream, and
     the handle is unchanged.""",
     ["inputs", "histories"],
     "all combinations of held dynamic type and requested type, const and non-const handles",
     "No test uses handles.",
     ["include/handle.hpp"],
     [("dynamic_cast to the type, then to its wrapper, then bad_cast", "include/handle.hpp dynamic_handle_extract, dynamic_handle_cast, dynamic_pointer_extract")],
     [("_ptr", "shared pointer to the object", "include/handle.hpp")],
     ["result identity and value", "exceptions", "standard error"])

prop("C15", "Binary words obey word algebra",
     """Appending a bit or a word (also the word itself) extends a word exactly by those bits, erasing a prefix of given length removes
     exactly that many leading bits (all if shorter, none if the length is not positive), and setting the last bit changes only that bit. The prefix and
     subword queries hold exactly when the word occurs at the start, respectively anywhere, in the other word.
     The order is the lexicographic strict total order in which a proper prefix comes first, and the byte count is the
     number of bits divided by eight, rounded up.""",
     ["inputs", "histories"],
     "all words and pairs of words, all histories of modifications",
     "The header is included by no test.",
     ["include/binary_word.hpp"],
     [("bit loops over std::vector<bool>", "include/binary_word.hpp")],
     [("the bit vector", "bits", "include/binary_word.hpp")],
     ["bits", "query results"])

prop("C16", "Binary words survive writing and reading",
     """A non-empty word is written as its digits and the empty word as the letter e, without changing the stream's formatting state; reading back either the
     digit form or the bracketed form gives exactly that word, replaces the previous contents, and leaves the text after the word
     unread. Building a word from digit text gives the word of its leading binary digits; malformed bracketed text is refused with an input failure.""",
     ["inputs"],
     "all words, all texts, all previous contents and stream formats",
     "The header is included by no test.",
     ["include/binary_word.hpp", "include/stlio.hpp"],
     [("operator>> / operator<< / make_binary_word", "include/binary_word.hpp")],
     [], ["text written", "word read", "unread remainder", "stream flags"])

prop("C17", "A coded variant visits exactly the alternative its code names",
     """For every number of alternatives up to sixteen and every alternative, visiting a variant calls the visitor exactly once,
     with an object of the alternative whose code the variant carries, and returns what the visitor returned. The variant reports
     the code it was made with or that of the alternative it was made from, and holds exactly the alternative
     with that code; visiting with a code that no alternative has aborts instead of visiting anything.""",
     ["inputs", "configurations"],
     "all arities 1..16, all positions, codes with and without an alternative",
     "The headers are included by no test.",
     ["include/variant.hpp", "include/variant.inl.hpp"],
     [("seventeen hand-written dispatch switches", "include/variant.inl.hpp coded_visit"), ("holds_alternative", "include/variant.hpp")],
     [("_code", "code of the alternative", "include/variant.hpp")],
     ["alternative visited", "number of visits", "return value", "abort"])

prop("C18", "Iterator facades obey iterator arithmetic",
     """For an iterator built from basic position operations, advancing, stepping forwards and backwards, adding and
     subtracting distances, and dereferencing move and read exactly the positions that integer arithmetic on positions
     gives; all six comparisons and iterator difference agree with the order and difference of positions. Operators that return a new
     iterator leave the original where it was, post-increment returns the old position, and paired iterators move and compare both components together.""",
     ["inputs", "histories"],
     "all pairs of positions, all distances of either sign, all histories of moves",
     "The header is included by no test.",
     ["include/iterator.hpp"],
     [("IteratorFacade operators in terms of distance_to/advance/increment/equal", "include/iterator.hpp"), ("PairIterator", "include/iterator.hpp")],
     [("position", "where the iterator stands", "the iterator class")],
     ["position and value after each operation", "comparison results"])

prop("C19", "An index range enumerates exactly the integers from start to stop",
     """For every start not above stop, a range has size stop minus start, its i-th index is start plus i, its stride is one, and iterating it
     visits start, start+1, ..., stop-1 exactly once each, in order, nothing when start equals stop. A range
     given only a stop starts at zero.""",
     ["inputs"],
     "all start <= stop over the whole unsigned range, including its upper end",
     "The header is included by no test.",
     ["include/range.hpp"],
     [("Range, RangeIterator, begin/end", "include/range.hpp")],
     [("_start/_stop", "bounds", "include/range.hpp")],
     ["size", "operator[]", "start/stop/stride", "iteration"])

prop("C20", "Randomisers draw only from their interval, and from all of it, evenly",
     """Every value drawn from an integer randomiser lies between its minimum and maximum inclusive, and every value drawn
     from a real randomiser lies in the half-open interval from its minimum to its maximum, for every interval and any interleaving of draws from several randomisers.
     All integers of an interval, and all parts of a real interval, are drawn with equal frequency, and successive or
     separate generators do not repeat one another's sequences.""",
     ["inputs", "histories"],
     "all intervals (single point, negative, full width), all interleavings of draws, all generator states",
     "The tests draw ten values and assert nothing about them.",
     ["include/randomiser.hpp"],
     [("uniform distributions bound to the interval at construction, one shared engine", "include/randomiser.hpp")],
     [("_distribution/_engine", "interval and generator state", "include/randomiser.hpp")],
     ["values drawn"])

prop("C21", "A stopwatch reports exactly the time between its last restart and its last click",
     """The reported duration is zero after creation or restart, and after a click it is the time elapsed from the last
     restart to that click; it does not change by itself, only a click or a restart changes it. Durations are never negative and
     do not depend on adjustments of the wall clock. The duration in seconds is that same reading expressed in seconds.""",
     ["histories", "fault_sequences"],
     "all histories of restart, click and reading against any passage of time and any wall-clock adjustment",
     "Tests take one reading after one sleep and only bound it from below.",
     ["include/stopwatch.hpp"],
     [("two saved time points", "include/stopwatch.hpp")],
     [("_initial/_clicked", "last restart, last click", "include/stopwatch.hpp")],
     ["duration", "elapsed_seconds"])

prop("C22", "Assertions throw exactly when the condition is false, and say what failed",
     """An always-on assertion or precondition evaluates its condition exactly once, does nothing when it holds, and when it does not
     throws a runtime error whose text has the condition as written and the given explanation; the equality assertions also give
     the two values. The debug-only ones do
     the same in debug builds and nothing, not even evaluating the condition, in release builds. Unconditional failure always throws with its explanation; warnings and
     notifications write exactly one line to the error stream each, the once-only ones one line in all, and never throw.""",
     ["inputs", "configurations", "histories"],
     "every macro, both truth values, debug and release builds, every repetition",
     "Tests see two of the macros fail inside library code, check only that something is thrown, and build one configuration.",
     ["include/macros.hpp"],
     [("HELPER_ASSERT*, HELPER_PRECONDITION*, HELPER_DEBUG_*, HELPER_FAIL_MSG, HELPER_THROW, HELPER_WARN*", "include/macros.hpp")],
     [("first_time", "whether a once-only message was written", "include/macros.hpp")],
     ["exception type and text", "evaluation count", "standard error"])

prop("C23", "The test framework counts and reports every failed check and no passed one",
     """Every checking macro adds exactly one to the failure count and writes an error line when its check fails or it catches an
     unexpected exception, naming the source file and the check as written, and adds nothing and writes no error when the check holds; execution then continues with the next statement.
     Macros expecting an exception fail exactly when the statement completes or throws something else, skipping
     is counted apart and does not run the statement, and purely informative macros change no count.""",
     ["inputs", "histories"],
     "every macro, each outcome of its check (holds, fails, throws), every sequence of them",
     "The framework is what the tests are written in: they pass, so its failure paths are never run.",
     ["include/test.hpp"],
     [("HELPER_TEST_* macros and the failure, skip and case counters", "include/test.hpp")],
     [("HELPER_TEST_FAILURES / HELPER_TEST_SKIPPED / test_case_counter", "counts", "include/test.hpp")],
     ["counters", "standard output", "standard error"])

prop("C24", "A stack trace lists the active calls and disturbs nothing",
     """With tracing built in, asking for a stack trace writes one line per active call to the error stream, innermost
     first, up to the documented depth limit, naming every call whose name is known, and leaves the error stream usable afterwards. Without it,
     the call writes nothing. In both cases the caller's state is unchanged and nothing is leaked.""",
     ["histories", "configurations"],
     "all call depths and nestings, named and unnamed functions, both build configurations",
     "Tests call the disabled variant twice and assert nothing; the enabled variant is never built.",
     ["src/stack_trace.cpp", "include/stack_trace.hpp"],
     [("backtrace / dladdr / demangle loop", "src/stack_trace.cpp")],
     [], ["standard error", "outstanding allocations"])

prop("C25", "Reference tuples assign through to exactly the named variables",
     """Assigning a pair or tuple to a reference pair or reference tuple sets each named variable to the corresponding
     component and changes no other variable. Component accessors give the component at their position, as a reference into the
     given tuple, so that writing through them changes that component and no other.""",
     ["inputs", "histories"],
     "all assignments between variables and tuples, all positions",
     "The header is only used indirectly; no test assigns through it.",
     ["include/tuple.hpp"],
     [("make_lpair, make_ltuple, get_first .. get_fifth", "include/tuple.hpp")],
     [], ["variables after each assignment"])

prop("C26", "Type queries agree with the list of types and the rules of the language",
     """For every list of types, the membership query holds exactly when the type occurs in the list, the index query gives its first
     position, and the all-same query holds exactly when no two types in the list differ (also for empty and one-element lists).
     First and second selectors give those positions. The callability queries hold exactly when the call is valid, respectively when
     it is and an object of the result type can be assigned what the call gives (IsInvocableReturning) or the call's result converts
     to it (InvocableReturning). The conversion, construction, assignment and derivation queries hold exactly when the language allows
     the operation, with their arguments in the documented order, and the arithmetic queries give the type the operation has.""",
     ["inputs"],
     "all type lists up to the bound; all pairs of types of nine kinds, constant or not, references or not",
     "The queries are only used inside the library; no test evaluates one.",
     ["include/metaprogramming.hpp"],
     [("recursive template specialisations", "include/metaprogramming.hpp IsOneOf, IndexOf, AreAllSame, First, Second, IsInvocable, IsInvocableReturning"),
      ("concepts", "include/metaprogramming.hpp Convertible .. InvocableReturning, SumType ..")],
     [], ["compile-time constants"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
