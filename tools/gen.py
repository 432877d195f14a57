#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (python3 tools/gen.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import PROPS  # noqa: E402

ALL = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, technique=None, note=None, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": mechanism}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = False
    ALL.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
                {"technique": technique, "level_note": note, "level": level}))


NOTE = (" Sampled, not exhaustive: a violation which needs an input, history or schedule outside the generated families can be missed. Trusts the compilers, "
        "the sanitizers, libstdc++ and the harness's own model.")

prop("C01", "An array always holds exactly the sequence its history prescribes",
     "After any history of constructing (empty, sized, filled, from a list, a range, a generator function or an array of another element type with or without a parameter), copying, moving, assigning (also to itself), resizing, reallocating, "
     "filling, assigning ranges, swapping and writing elements, an array's size, its elements read by index, checked access, iteration and first/last element, and its equality to other arrays are those of the plain sequence that this history prescribes. "
     "Sized construction and growth give value-initialised or the supplied elements even if the supplied value or range aliases the array itself, copies and conversions share nothing with their source, and checked access fails with an out-of-range error exactly for indices not below the size. "
     "The complement of an increasing list of indices below n is exactly the increasing list of the other indices below n.",
     ["histories", "inputs"], "All histories of public operations on any number of arrays, for any element type, size and value, including self-assignment, aliasing arguments and empty arrays.",
     "The quantifier is over histories and inputs; test_array checks one conversion of a three-element array and prints one.",
     ["include/array.hpp"], "Each operation replaces or rewrites a heap block of elements together with the size; assignment reuses the block if the sizes agree.",
     state=[{"name": "elements and size of an array", "meaning": "the sequence of values the array represents"}], observe=["size", "operator[]", "at", "begin/end", "operator=="],
     technique="online model-based monitor over random histories, under ASan/UBSan and in release builds",
     note="Every operation of tens of thousands of random histories over seven element types is compared with a reference sequence." + NOTE)

prop("C02", "Array storage and elements are managed exactly once, also on every failure",
     "Whatever operations are made on arrays, every element is constructed exactly once, at an address aligned for its type, before any other use of it, and destroyed exactly once, and all storage is released when the arrays are gone; no operation reads or writes outside the storage. "
     "If an element operation or an allocation fails part-way, the error reaches the caller, nothing is leaked or destroyed twice, and an operation which replaces the storage (construction, resizing, reallocation, or assignment between arrays of different sizes) leaves the existing array as it was. "
     "A request for a size whose storage cannot be represented fails with an allocation error rather than giving an array with too little storage.",
     ["histories", "fault_sequences", "inputs"], "All histories of array operations, element types with observable lifetimes and any alignment, every point at which an element operation or allocation can fail, and all sizes.",
     "The quantifier is over failure points and lifetimes; the tests run no sanitizer, inject no failure and use only trivially destructible elements.",
     ["include/array.hpp"], "Raw storage plus placement construction and explicit destruction, with clean-up handlers for failures.",
     technique="lifetime-checking element type, tracked allocator and sanitizers, with an injected failure at every element operation and allocation",
     note="For each random operation every possible failure point is injected in turn, and the lifetime registry, the allocator's ledger and ASan/UBSan judge the outcome." + NOTE, level="fault_enumeration")

prop("C03", "Copies of a shared array share elements, released once with the last copy",
     "All copies of a shared array (by copy construction or assignment, also to itself) see the same size and the same elements, so that a write through one is seen by all, and arrays not copied from one another never affect each other. "
     "The elements stay alive exactly as long as some copy exists, and are then destroyed exactly once and their storage released, whatever the order of copying, assigning and destroying and even if constructing an array fails part-way.",
     ["histories", "fault_sequences"], "All histories of constructing, copying, assigning, writing and destroying shared arrays of any element type and size, including empty ones, and all failure points of a construction.",
     "The quantifier is over histories of ownership; no test uses a shared array at all.",
     ["include/array.hpp"], "A heap-allocated reference count beside the element block.", state=[{"name": "owners of an element block", "meaning": "the shared arrays which were copied from one another"}],
     technique="ownership-model monitor over random histories with lifetime-checked elements, failure injection and sanitizers",
     note="Random histories are compared with a model of owner groups, while a lifetime registry and the allocator's ledger observe when elements die." + NOTE)

prop("C04", "An LRU cache keeps exactly the most recently used entries, with their ages",
     "A cache of maximum size n holds at any time exactly the at most n labels which were put or got most recently, each with the value last put under that label; putting a new label into a full cache evicts exactly the least recently used one. "
     "The age of a held label is the number of held labels used more recently than it, and only putting and getting count as use: asking for presence, age, current size or maximum size changes nothing.",
     ["histories", "inputs"], "All histories of put, get, has_label, age and size queries (also through copies of a cache, which evolve independently), all label and value types and all maximum sizes.",
     "The quantifier is over histories; the tests run a handful of fixed sequences of at most five operations on caches of at most four entries.",
     ["include/lru_cache.hpp"], "Each entry carries an age, updated over the whole map on every use; eviction looks for the maximal age.",
     state=[{"name": "entries with ages", "meaning": "recency order of the held labels"}], observe=["has_label", "get", "age", "current_size", "maximum_size"],
     technique="online monitor comparing random operation histories with a recency-list model",
     note="All labels' presence, ages and values are compared with a recency list after operations of random histories, plus all histories of bounded length for small caches." + NOTE)

prop("C05", "A rejected or failed cache operation leaves the cache unchanged",
     "Creating a cache of size zero, getting or asking the age of a label which is not held, and putting a label which is held already fail with an error, and neither these nor a put which fails because copying, comparing or allocating fails change which labels the cache holds, their ages or their values. "
     "The reference which get returns stays valid and keeps the label's value as long as the label is held, whatever else happens to the cache, and putting a value or label which is itself part of the cache works as putting a copy of it made beforehand.",
     ["histories", "fault_sequences", "inputs"], "All reachable caches, all invalid requests in them, every failure point of copying a value, comparing labels or allocating during a put, and all arguments aliasing the cache.",
     "The quantifier is over failures at arbitrary points; the tests check that two invalid calls throw, not what state they leave.",
     ["include/lru_cache.hpp", "include/macros.hpp"], "Preconditions are checked before changes; an entry is inserted before any age changes.",
     technique="before/after state comparison around rejected calls and an injected failure at every point of a put, with sanitizers",
     note="In random cache states every failure point of a put is injected in turn and the whole observable state is compared with the one before." + NOTE, level="fault_enumeration")

prop("C06", "A lazy object is computed at most once, on first use, and then stays the same",
     "A lazy object does not call its function before it is first asked for its value, calls it exactly once however often it is asked afterwards, and always returns the same object with the value that function produced, which it destroys exactly once when it and all copies made from it since are gone. "
     "If the function fails, the failure reaches the caller, nothing is retained, and the next request calls the function again; copies made before the first request compute their own object, and copies made after it share the object without calling the function.",
     ["histories", "fault_sequences"], "All histories of creating, copying, assigning, requesting and destroying lazy objects in one thread, with functions which fail at any of their calls.",
     "The quantifier is over histories including failure and copying; the test asks one lazy object for its value.",
     ["include/lazy.hpp"], "A cached shared pointer is filled on the first call.",
     technique="model monitor counting function calls and object lifetimes over random histories, with injected failures and sanitizers",
     note="Calls, object identity and object lifetimes are compared with a model over random histories." + NOTE)

prop("C07", "Set operations are the mathematical ones and change only their target",
     "For all sets, membership, subset and disjointness (also against lists), union by join or adjoin, intersection (also with a list), difference, removal of an element, set or list, restriction, the image under a function, and conversion between sets, lists and sets of another element type give exactly the mathematical result. "
     "The in-place operations change exactly the set they are called on, even if the arguments are the same set, and the other operations change neither argument.",
     ["inputs", "histories"], "All pairs of sets and lists over any ordered element type, including empty, equal, nested, interleaved and aliasing arguments.",
     "The quantifier is over all pairs of sets; the tests use one set, as an argument of two other functions.",
     ["include/container.hpp"], "Loops over ordered sets with lookups and iterator erasure.",
     technique="differential monitor against bit-set models on random and small-exhaustive inputs, with sanitizers and debug containers",
     note="All pairs of subsets of a small universe in the thorough tier, and random larger ones, are compared with an independent model." + NOTE)

prop("C08", "Maps look up, merge and restrict keys as specified, and reject missing keys",
     "Checked look-up in a map returns the value stored under the key if there is one and otherwise fails with an error, leaving the map unchanged; unchecked non-constant indexing adds a default value instead. "
     "Inserting, adjoining and joining add exactly the entries whose keys are not yet present and keep those which are; removing keys and restricting to keys remove or keep exactly the entries with keys in the given set; keys and values list exactly the entries in order of the keys; conversion to another value type converts every value.",
     ["inputs", "histories"], "All maps, key sets and histories of these operations, over any ordered key type and any value type.",
     "The quantifier is over all maps and keys; the tests look up two keys and restrict one fixed map.",
     ["include/container.hpp", "include/macros.hpp"], "Ordered map look-ups with assertions on missing keys.",
     technique="online model-based monitor over random histories, with sanitizers and debug containers",
     note="Random histories over several key and value types are compared with a reference association after every operation." + NOTE)

prop("C09", "Sequence functions keep every element, in order, and their sources intact",
     "Appending an element or a sequence to a list or linked list, concatenating and catenating give exactly the elements of the first followed by those of the second, also if both are the same list, and leave the second unchanged. "
     "Applying a function to a list, elementwise application to one or two lists, making arrays, lists and sets from elements, arrays, vectors and sets, and converting constructors give exactly one result per element in order (for sets: each distinct element once), the function being called exactly once per element or pair. "
     "A list is reported to have unique elements exactly if no two of them are equal, and its duplicate elements are exactly those which occur more than once.",
     ["inputs", "histories"], "All lists, linked lists, vectors, arrays and sets of any length and element type, all functions, and aliasing arguments.",
     "The quantifier is over all sequences and functions; one test makes a list of one three-element set.",
     ["include/container.hpp"], "Loops copying elements between standard containers.",
     technique="differential monitor against reference sequences on random inputs, with call recording and sanitizers",
     note="Random sequences over several element types, including aliasing arguments, are compared with reference sequences." + NOTE)

prop("C10", "Binary words obey the algebra of words and its lexicographic order",
     "For all binary words, appending a bit or a word (also itself) concatenates, erasing a prefix of k bits removes exactly the first k bits (all, if there are fewer; none, if k is not positive), setting the last bit changes only it, and the number of bytes is the least which holds all bits. "
     "One word is reported as a prefix, or as a subword, of another exactly if it occurs at the start, or anywhere, in it, and words are ordered as in a dictionary, which is a strict total order consistent with equality.",
     ["inputs", "histories"], "All words of any length, all pairs and triples of words and all histories of operations.",
     "The quantifier is over all words; no test uses binary words.",
     ["include/binary_word.hpp"], "Bit vectors with loops over positions.",
     technique="differential monitor against string models on random and small-exhaustive words, with sanitizers",
     note="All pairs of short words and random long ones with shared parts are compared with string models." + NOTE)

prop("C11", "Reading text gives back exactly what was written and rejects malformed input",
     "Reading a sequence accepts exactly the texts which consist of an opening bracket, items separated by the separator and a closing bracket, with optional blanks, and yields exactly those items and leaves the rest of the input unread; any other text fails with an input error, without reading past the end or using a value which was never read. "
     "Every binary word is read back as itself from each of its written forms (its bits, 'e' if empty, or a bracketed list of its bits), alone or followed by other text which is left unread.",
     ["inputs"], "All texts, well-formed, malformed, truncated at any point or empty, all item types with a reader, all bracket and separator characters, and all streams with or without exceptions enabled.",
     "The quantifier is over all texts; no test reads anything.",
     ["include/stlio.hpp", "include/binary_word.hpp"], "Character-wise parsing with formatted extraction and put-back.",
     technique="independent reference parser compared on random, mutated and truncated texts, under sanitizers and memcheck for uninitialised reads",
     note="Verdict, items and remaining input are compared with a separately written parser; memcheck watches for uses of values never read." + NOTE)

prop("C12", "Writing a container prints its elements in order and nothing else",
     "Arrays, shared arrays, vectors, lists and linked lists are written as [a,b,c], sets as {a,b,c}, pairs of iterators as {a,b}, pairs as (a,b), tuples as (a,b,c) and maps as { k:v, l:w }, with every element once, in order, by its own writer, with no separator before the first or after the last, and with just the brackets if there are none, for all nestings of these. "
     "The sequence, map and pointer-sequence writers use exactly the given opening, closing, separating and describing characters and the elements in the range. "
     "Writing returns the given stream, and leaves its state and formatting, and what is written, unchanged.",
     ["inputs"], "All contents and nestings of containers, all element types with a writer, all bracket characters and all stream formatting states.",
     "The quantifier is over contents, nestings and stream states; the tests print one array and check nothing about it.",
     ["include/container.hpp", "include/stlio.hpp", "include/binary_word.hpp"], "Loops writing a separator between elements.",
     technique="differential monitor against an independent renderer on random nested values and stream states, with sanitizers",
     note="Random nested values and stream states are rendered by a separately written printer and compared byte for byte." + NOTE)

prop("C13", "Handles isolate writers: changing an object through one never affects others",
     "An object held by handles is one object: copying, assigning and converting handles neither copies nor changes it, all read access through any of these handles sees the same object, and it is destroyed exactly once, when its last handle is gone. A handle made from a temporary object takes over its content by moving it. "
     "Write access through a handle whose object can be cloned gives an object which no other handle sees, with the value it had before, so that changes through one handle are never observed through another; a handle to constant objects never clones and never gives write access. "
     "This holds also if different threads use different handles which share one object.",
     ["histories", "schedules"], "All histories of making, copying, moving, assigning, converting, reading, writing and destroying handles, and all interleavings of threads which each use only their own handles.",
     "The quantifier is over sharing histories and schedules; no test uses handles.",
     ["include/handle.hpp"], "A shared pointer, cloned before any mutable access.", state=[{"name": "object shared by handles", "meaning": "the objects and the handles which refer to each"}],
     technique="sharing-model monitor over random histories with lifetime-checked objects, ASan, and ThreadSanitizer on threads with own handles",
     note="Identity, value and lifetime of every object are compared with a model of which handle sees which object; thread runs are judged by TSan and by each thread's own expected values." + NOTE)

prop("C14", "Handle casts succeed exactly for the object's type and lose nothing",
     "Casting a handle to a handle of another interface and extracting an object of a given type from a handle succeed exactly if the held object has that type or interface (also if it is held through a wrapper), and then refer to the very same object, which stays alive as long as the result needs it and is unchanged. "
     "Otherwise they fail with a bad-cast error after reporting the object on the error stream, and neither the handle nor the object is affected; extracting from a shared pointer gives a null pointer instead.",
     ["inputs", "histories"], "All class hierarchies (single, multiple and virtual bases, wrappers, writable and not), all dynamic types of the object and all requested types, for handles to constant and mutable interfaces.",
     "The quantifier is over all pairs of dynamic and requested types; no test casts a handle.",
     ["include/handle.hpp", "include/writable.hpp"], "dynamic casts of shared pointers, with a fall-back through the wrapper class.",
     technique="monitor comparing every cast in a matrix of types and ownership states with the language's own dynamic type, with sanitizers",
     note="A matrix of dynamic types, requested types and handle kinds in random histories." + NOTE)

prop("C15", "Iterator facades and ranges behave as the positions they stand for",
     "An iterator built on the random-access facade obeys the arithmetic of positions: advancing by any n moves by n, differences and all six comparisons agree with the positions, increment, decrement, addition and subtraction and their compound forms agree, and it refers to the element at its position; one built on the forward facade visits exactly the elements in order, with pre- and post-increment returning the new and the old position. "
     "A pair of iterators advances both, refers to both elements, and is equal to another exactly if both parts are. "
     "A range from a to b has the size b-a, its i-th value is a+i, and iterating visits exactly a, a+1, ..., b-1.",
     ["inputs", "histories"], "All positions, offsets, underlying sequences and reference kinds, and all ranges with start not above stop.",
     "The quantifier is over positions and offsets; no test uses the facades or ranges.",
     ["include/iterator.hpp", "include/range.hpp"], "Operators forwarded to the derived iterator's primitive functions.",
     technique="model monitor over random walks of iterators built on the facades, also through standard algorithms, with sanitizers",
     note="Random walks and standard algorithms over facade iterators are compared with integer positions." + NOTE)

prop("C16", "A coded variant dispatches to exactly the type of its code, or aborts",
     "A variant made from a value of one of its types, or from that type's code, reports that code, holds exactly the alternative with that code, and calls a visitor exactly once with an object of exactly that type, passing on the visitor's result, for every number of alternatives from one to sixteen and whatever the codes are. "
     "Visiting a variant whose code belongs to none of its alternatives terminates the program and calls no visitor.",
     ["inputs", "programs"], "All numbers of alternatives (1 to 16), all positions and values of codes, all visitors and result types, and all codes which belong to no alternative.",
     "The quantifier is over arities, positions and codes; no test uses coded variants.",
     ["include/variant.hpp", "include/variant.inl.hpp"], "One switch statement per number of alternatives.",
     technique="exhaustive monitor over arities and positions with recording visitors, and child processes observed to abort for unknown codes, with sanitizers",
     note="Every arity and position, with several code layouts, in every run; unknown codes are sampled, exhaustively for one-byte codes in the thorough tier." + NOTE)

prop("C17", "Randomisers draw every value of their interval, uniformly, and no other",
     "A uniform integer randomiser returns only values from its minimum to its maximum, both included, each with the same probability; a uniform real randomiser returns only values in its interval, uniformly distributed over it. "
     "Successive draws, and draws of different randomisers, are independent of each other, different runs of a program draw differently, and a randomiser may be copied, and destroyed through its interface.",
     ["inputs", "histories"], "All integer and real types and all intervals, real ones of a width which the type can represent, including single values, negative bounds and the type's extreme values, and all sequences of draws.",
     "The property is about distributions and all intervals; the tests print ten draws from two fixed intervals and check nothing.",
     ["include/randomiser.hpp"], "A seeded Mersenne twister shared by all randomisers of a translation unit and a standard distribution per randomiser.",
     technique="range monitor on every draw and statistical tests (chi-square, Kolmogorov-Smirnov, serial correlation) with false-alarm odds below 1e-9",
     note="Each draw is range-checked; uniformity and independence are decided statistically, so that a deviation too small for the number of draws is missed." + NOTE)

prop("C18", "A stopwatch measures the time between restart and click, whatever the clock does",
     "A stopwatch's duration is the real time which passed between its creation or last restart and the last click after it, rounded towards zero to its unit, and zero if there was no click since; it is never negative and is not affected by changes of the system's date and time. "
     "Reading it changes nothing; the elapsed seconds agree with the duration to within one unit and never exceed the time which really passed; restarting and clicking return the same stopwatch, and copies run independently.",
     ["histories", "inputs"], "All histories of create, restart, click, read and copy, all time units, all elapsed times from nanoseconds to centuries and all jumps of the system date between them.",
     "The quantifier is over histories, times and clock jumps; the tests sleep once and check a lower bound.",
     ["include/stopwatch.hpp"], "Two time points taken from a clock.",
     technique="replacement of the clock functions by a controlled virtual clock, with random histories compared with a model",
     note="The system's clock functions are replaced in the test process, so that elapsed times and date jumps are chosen; relies on the standard library's clocks reading the time through clock_gettime." + NOTE)

prop("C19", "Writing a stack trace is harmless from any call depth and any thread",
     "Writing a stack trace returns normally from any depth of calls, in any thread and also concurrently and while an exception is handled, writes nothing but text with one line for each of the innermost calls to the error stream, leaves that stream usable, leaks no memory and changes nothing else. "
     "Functions with a visible symbol appear by their readable names, innermost first; where stack traces are disabled the call does nothing at all.",
     ["inputs", "schedules", "configurations"], "All call depths (including deeper than the recorded maximum) and callers (functions, methods, templates, lambdas, functions without symbols), all threads, and both configurations.",
     "The quantifier is over call depths, frame kinds and threads; the tests call it twice, in the configuration where it does nothing.",
     ["src/stack_trace.cpp", "include/stack_trace.hpp"], "backtrace() and demangling of each frame's symbol.",
     technique="observation of the error stream, allocations and names at random depths and in threads, under ASan with leak checking and TSan, in both configurations",
     note="Random call chains with known names are compared with the captured text." + NOTE)

prop("C20", "Assertions fail exactly when false, evaluate once, and say what failed",
     "Each assertion and precondition macro throws a runtime error if its condition is false and otherwise has no effect beyond evaluating its condition exactly once; the message of the error contains the file, line and function, the text of the condition and the given explanation, and explanations and operands are formatted only on failure. "
     "The debugging forms behave so in debugging builds, and in release builds do not evaluate anything; the throwing and not-implemented macros throw the given type with the given message; notices and warnings go to the error stream and never change control flow, those meant to be given once being written once.",
     ["inputs", "configurations", "histories"], "All conditions, operand types and explanations, all calling contexts (functions, methods, templates, loops, nested and unbraced statements) and both build configurations.",
     "The quantifier is over conditions, contexts and configurations; the tests reach these macros through two container calls.",
     ["include/macros.hpp"], "Macros expanding to a guarded throw.",
     technique="monitor recording evaluations, exceptions and streams over generated uses of every macro in debugging and release builds, with sanitizers",
     note="Every macro in random truth sequences and contexts, in builds with and without NDEBUG." + NOTE)

prop("C21", "Test macros count a failure exactly when the tested condition does not hold",
     "Each macro of the test framework adds exactly one to the failure count if the condition it tests does not hold (an assertion is false, values differ or are out of tolerance, a comparison or predicate does not hold, an expected exception does not come or is of another type, or an unexpected one comes) and nothing otherwise; it never stops the tests which follow (an exception thrown by an operand of a condition is left to the enclosing test call), and reports each failure on both output streams. "
     "Skipping runs nothing and counts one skip, and warnings change no count.",
     ["inputs", "histories"], "All operand values (with tolerances, those whose difference their type represents), types, tolerances and compound operand expressions, all statements which throw or not, and all sequences of tests.",
     "The framework judges the tests, so that nothing tests it: the quantifier is over passing and failing conditions of every macro, and the tests only use a few macros, on conditions which hold.",
     ["include/test.hpp"], "Macros which evaluate a condition, write to the streams and count.",
     technique="monitor over random sequences of macro uses whose verdicts are decided independently, capturing both streams, with sanitizers",
     note="Every verdict macro with random operands, compared with independently decided verdicts." + NOTE)

prop("C22", "Type computations give the mathematically defined answer for all type lists",
     "For all lists of types, the first and second type, the index of a type, whether a type is one of the list and whether all are the same are those of the list as written; the concepts for convertibility, constructibility, assignability, derivation, invocability and operators hold exactly if the corresponding expression is valid, and the result-type computations name exactly the type of the corresponding expression.",
     ["programs", "inputs"], "All lists of types of any length with repetitions, reference and const variants, and all types and callables.",
     "The quantifier is over programs; the tests use the traits only where the library itself happens to need them.",
     ["include/metaprogramming.hpp"], "Recursive templates and concepts over type lists.",
     technique="randomly generated programs whose trait values, printed at run time by the compiled library code, are compared with an independently computed answer",
     note="Each run generates fresh random type lists, compiled and executed with two compilers; the answer for lists is computed by the generator, for expressions by plain requires-expressions and the standard traits." + NOTE)

prop("C23", "Writable objects are written by their own method, directly, wrapped or handled",
     "Writing an object which has a write method to a stream, directly, through the writable interface, as an element of a container or through a writer, calls exactly that method once for the object with that stream, returns the stream, and produces exactly the text it writes; copied and assigned writers write alike. "
     "Types are recognised as writable exactly if they have a usable write method, and a writer made from a shared implementation keeps it alive as long as some writer uses it.",
     ["inputs", "histories"], "All writable types (derived from the interface or not), streams, containers of such objects, and histories of writers being made, copied, assigned and destroyed.",
     "The quantifier is over types and writer histories; no test writes such an object.",
     ["include/writable.hpp", "include/handle.hpp"], "Virtual write methods, a constrained stream operator and temporaries which hold references.",
     technique="monitor recording every write call, target and stream over random histories of writers and objects, with sanitizers",
     note="Recorded calls and text are compared with a model." + NOTE)

prop("C24", "Threads using separate or only-read objects never interfere",
     "Threads which operate on different objects of any kind in this library, or which only read a shared object (arrays, containers, binary words, handles, lazy objects already computed, ranges, coded variants), have no data races, and each obtains the same results as if it ran alone.",
     ["schedules", "histories"], "All interleavings of threads which share no object, or share objects only for reading.",
     "The quantifier is over schedules; all tests are single-threaded.",
     ["include/array.hpp", "include/container.hpp", "include/lru_cache.hpp", "include/handle.hpp", "include/lazy.hpp", "include/binary_word.hpp", "include/stopwatch.hpp", "include/variant.inl.hpp"],
     "No operation on one object touches state shared with others, and constant operations do not write.",
     technique="ThreadSanitizer on stress runs with random yields, and comparison of each thread's results with a single-threaded run",
     note="TSan reports a race in any execution in which the two accesses are not ordered, even if they did not collide; only the executed operations are covered." + NOTE)

prop("C25", "Tuple references and string conversion keep the very objects and texts",
     "Pairs and tuples of references made from variables refer to those variables themselves, so that assigning to the pair or tuple assigns to the variables and nothing else, and access by position gives the part at that position as a reference of the kind of the tuple (constant, movable or not). "
     "Conversion of any value to a string gives exactly the text which writing that value produces, and a string object holds exactly the characters it was made from and gives them back as a C string.",
     ["inputs", "programs"], "All values and types of the parts, all value categories, all writable values, and all strings including embedded and trailing null characters.",
     "The quantifier is over values, categories and types; the tests use strings only as labels.",
     ["include/tuple.hpp", "include/string.hpp"], "Thin wrappers over the standard pair, tuple and string.",
     technique="monitor comparing addresses, value categories and texts over random values, with sanitizers",
     note="Random values and all value categories." + NOTE)

prop("C26", "Any units of a program can use any headers together and share their objects",
     "Each header can be the first or the only one of the library which a unit of a program includes, headers can be included in any order and any number of times, in any number of units of one program and its shared libraries, and the same uses of the library give the same results in all of them. "
     "Including headers leaves the program free to use its own names outside the library's namespace, also names which the library or the standard library use in theirs. "
     "Objects made in one unit can be copied, changed, read and destroyed in any other, exceptions are caught and the dynamic types of handles' objects are recognised by any other, and notices given once, counts of test failures and the sequence of random draws are the program's, not the unit's; objects may also be made and used while units are initialised and shared libraries are loaded, and destroyed when the program ends.",
     ["programs", "histories"], "All sets and orders of inclusions, all divisions of a program into units, shared libraries and libraries loaded at run time, and all histories of exchanges between them. Includes the headers for tests, and excludes concurrency.",
     "Each test is a program of one unit which includes one to three headers in one order.",
     ["include/array.hpp", "include/binary_word.hpp", "include/container.hpp", "include/handle.hpp", "include/iterator.hpp", "include/macros.hpp", "include/metaprogramming.hpp", "include/randomiser.hpp", "include/stack_trace.hpp",
      "include/test.hpp", "include/variant.inl.hpp", "include/writable.hpp"], "Headers guard against repeated inclusion, include what they use, and define only templates and inline functions and variables.",
     technique="monitor of generated programs of many units and shared libraries, compared across units, under ASan/UBSan and in release builds",
     note="Each run generates one program (orders and division into libraries from the seed), compiles and runs it; exchanges between units are random histories." + NOTE)

prop("C27", "Classes which take over the constructors of their base keep their own members",
     "A class which takes over the constructors of its base by HELPER_USING_CONSTRUCTORS can be made from the arguments from which its base can, alone or several: its base then is what the base would be if made from these very arguments (which arrive as variables, constants or temporaries as given, and are moved from only by the base's constructor), its own members have their initial values, and a construction which the base refuses fails with the same exception. "
     "From a single value it is made implicitly exactly if its base is. Copies and moved objects of the class, made from variables, constants, temporaries or objects of derived classes, have the base and also the own members of the object they are made from.",
     ["inputs", "histories"], "All bases with accessible constructors, all own members with initial values, all arguments which have a type and can be referred to (not braces, bit-fields or names of overloaded functions), and all histories of copies. Excludes values of other classes which convert themselves to the class, and class templates whose parameters are named T or Args.",
     "No test uses the macro; the property quantifies over bases, members, arguments and their value categories.",
     ["include/macros.hpp"], "The macro defines constructors for any arguments, which step back for objects of the class itself.",
     technique="monitor comparing the class with its base and with a model of the own members over random arguments and histories, with sanitizers",
     note="Random arguments of all value categories; six classes." + NOTE)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in ALL:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, c in ALL:
        if p["id"] in PROPS:
            checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}", "thorough_cmd": f"python3 run.py {p['id']} --tier thorough", **c})
        else:
            na.append({"property": p["id"], "reason": "its check is not built yet"})
    m = {"version": 1, "setup_cmd": "python3 run.py --selfcheck", "checks": checks, "not_applicable": na,
         "notes": "All checks observe /repo through its public interface: no hooks are needed. See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
