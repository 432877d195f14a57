"""What each property's check builds and runs."""

SIZED = "-fsized-deallocation"  # so that deleting by a base class without virtual destructor shows
SAN = [SIZED, "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1", "-O0"]
VARIANTS = {
    # sanitizers, asserts on, and libstdc++'s debug containers, which know which iterators are valid
    "dbg": {"cxx": "clang++", "flags": [*SAN, "-D_GLIBCXX_DEBUG"]},
    "gsan": {"cxx": "g++", "flags": [*SAN, "-D_GLIBCXX_ASSERTIONS"]},
    # the project's release configuration: optimised, asserts off
    "rel": {"cxx": "clang++", "flags": [SIZED, "-O2", "-DNDEBUG", "-pthread"]},
    "grel": {"cxx": "g++", "flags": ["-O2", "-DNDEBUG", "-pthread"]},
    # for programs whose answers are computed by the compiler
    "plain": {"cxx": "clang++", "flags": [SIZED, "-O0"]},
    "gplain": {"cxx": "g++", "flags": ["-O0"]},
    "tsan": {"cxx": "clang++", "flags": [SIZED, "-O1", "-g1", "-fsanitize=thread", "-DMON_NO_ALLOC", "-pthread"]},
    # uninitialised reads: no monitor allocator, whose fill pattern would count as initialisation
    "vg": {"cxx": "g++", "flags": ["-O0", "-g1", "-DMON_NO_ALLOC", "-pthread"],
           "wrap": ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no"]},
}
QUICK = ["dbg", "rel"]
THOROUGH = ["dbg", ("gsan", {}), "rel", ("grel", {"repeat": 4}), ("vg", {"scale": 20, "tier": "quick"})]


def P(source, rule, quick=QUICK, thorough=THOROUGH, **kw):
    return dict({"sources": [source], "quick": quick, "thorough": thorough, "rule": rule}, **kw)


PROPS = {
    "C01": P("c01_array.cpp", "A case is a random history of 10 to 50 operations on four arrays of one element type (int, double, unsigned char, string, two lifetime-checked "
             "types, nested arrays), or one conversion or index-complement input; after every operation all arrays are compared with std::vector models. "
             "Non-trivial: the case ran its oracle; distinct by the hash of its logged history."),
    "C02": P("c02_lifetime.cpp", "A case is one random operation on random arrays, repeated with a failure injected at each of its element operations and then at each of its allocations until none is "
             "reached; or a history of 10 to 40 operations some of which fail; or a request for an unrepresentable size; or arrays of an over-aligned type. Non-trivial: ran its oracle; distinct by its logged history.",
             level="fault_enumeration"),
    "C03": P("c03_shared.cpp", 'A case is a random history of 10 to 60 constructions, copies, assignments, writes and destructions of six shared arrays, compared after every step with a model of owner groups; or a construction with a failure injected at each of its element operations and allocations. Non-trivial: ran its oracle; distinct by its logged history.'),
    "C04": P("c04_lru.cpp", "A case is a random history of 10 to 70 puts, gets, queries, copies and assignments of up to three caches of random capacity (six pairs of label and value types), all labels' presence and ages and the sizes being compared with a recency list after every step; or one history of the complete enumeration of all histories of 5 (thorough: 7) uses of capacity+2 labels for the capacities 1 to 3. Non-trivial: ran its oracle; distinct by its logged history."),
    "C05": P("c05_lru_faults.cpp", 'A case is a random cache state and then requests which must be rejected, or a put which fails at each of its element operations, comparisons and allocations in turn, or a history during which earlier references are read, or a put of a part of the cache; the whole observable state (labels, ages, values, sizes) is compared with the one required. Non-trivial: ran its oracle; distinct by its logged history.', level="fault_enumeration"),
    "C06": P("c06_lazy.cpp", 'A case is a random history of 8 to 48 creations, copies, assignments, requests and destructions of five lazy objects whose functions fail at scripted calls, with calls, identities, values and lifetimes compared with a model after every step; or nested lazy objects; or a request with an allocation failure at each point. Non-trivial: ran its oracle; distinct by its logged history.'),
    "C07": P("c07_set.cpp", 'A case is a pair of sets over 16 elements of one of five element types (random, or one of all pairs of subsets of 4 elements, thorough: 6), on which every operation is run, also with aliasing arguments, and compared with bit masks; or a history of in-place operations on sets of up to 200 elements; or a conversion between element types. Non-trivial: ran its oracle; distinct by its logged input.'),
    "C08": P("c08_map.cpp", 'A case is a random history of 10 to 60 operations on three maps over 16 keys (four pairs of key and value types), all maps being compared with a model after every step; or a conversion to other value types. Non-trivial: ran its oracle; distinct by its logged history.'),
    "C09": P("c09_sequences.cpp", "A case is a random history of 8 to 48 operations on three lists or linked lists of one element type, compared with sequences of integers after every step, also with aliasing arguments; or one random list (or two) to which functions are applied with all calls recorded, also failing ones; or one random sequence given to every maker, conversion and duplicate test. Non-trivial: ran its oracle; distinct by its logged history."),
    "C10": P("c10_binary_word.cpp", "A case is a random history of 10 to 50 operations on three words compared with strings after every step; or a random pair of words which are nearly a prefix, a part or equal, with all relations; or one word of at most 6 (thorough: 8) bits against all others of these. Non-trivial: ran its oracle; distinct by its logged input."),
    "C11": P("c11_reading.cpp", "A case is one text (well-formed with random blanks, followed by other text, truncated, mutated or random) of one item type, container, bracket triple and stream kind, judged by an independent parser; or all texts of at most 6 (thorough: 7) characters of a six-character alphabet with given first characters; or written sequences and words read back. Non-trivial: ran its oracle; distinct by its logged text.",
             quick=["dbg", "rel", ("vg", {"scale": 10})]),
    "C12": P("c12_writing.cpp", "A case is one random content of one of 36 types of nested containers, pairs and tuples, or of a range given to a sequence writer with random characters, written to streams with random formatting (also failing and full ones) and compared with an independent rendering; or containers whose elements record being written. Non-trivial: ran its oracle; distinct by its logged content and format."),
    "C13": dict(P("c13_handles.cpp", "A case is a random history of 12 to 72 steps on 14 handles and pointers (to mutable, constant and derived interfaces; objects of three classes, one held by a wrapper), identities, values and lifetimes being compared with a model after every step, with failures injected into write accesses; or a failing construction at each point; or two to five threads with own handles sharing objects, under the race detector. Non-trivial: ran its oracle; distinct by the logged history or the observed order of the threads' steps."),
                units=[dict(sources=["c13_handles.cpp"], quick=QUICK, thorough=THOROUGH),
                       dict(sources=["c13_threads.cpp"], quick=["tsan"], thorough=[("tsan", {"repeat": 3}), ("rel", {"repeat": 2}), "dbg"])]),
    "C14": dict(P("c14_casts.cpp", "A case is one object of one of nine dynamic types (single, multiple, virtual, private and ambiguous bases, wrapped, writable or not) held by a handle to a mutable or constant interface, with casts to 17 requested types by every cast and extraction, in which the original handle may be destroyed; or a random chain of casts and destructions. Non-trivial: ran its oracle; distinct by its logged value, types and steps."),
                units=[dict(sources=["c14_casts.cpp"], flags=[f"-DPART={k}"], quick=QUICK, thorough=THOROUGH) for k in range(3)]),
    "C15": P("c15_iterators.cpp", "A case is a random walk of an iterator built on a facade over a random sequence (random-access, forward, paired), a run of standard algorithms on such iterators, or a range; every position, reference, difference and comparison is compared with integers. Non-trivial: ran its oracle; distinct by its logged history."),
    "C16": dict(P("c16_variant.cpp", "A case visits, for one family of sixteen codes and every number of alternatives from 1 to 16, every alternative (made from its code, from its type, copied, assigned, moved) with recording visitors of five kinds of result, then visits variants with codes of no alternative, in the process itself with the abort caught and in child processes. Non-trivial: ran its oracle; distinct by its logged choices."),
                units=[dict(sources=["c16_variant.cpp"], flags=[f"-DPART={k}"], quick=QUICK, thorough=THOROUGH) for k in range(4)]),
    "C17": P("c17_randomisers.cpp", "A case is one type and interval (random, single values, extremes of the type) from which 12000 draws are made by one randomiser, then by two alternately and by a copy, each draw range-checked and each series put to statistical tests; or 60 processes whose draws are compared, also with a frozen clock. Non-trivial: draws were judged; distinct by interval.",
             quick=[("dbg", {"scale": 12}), "rel"], thorough=[("dbg", {"scale": 3}), ("gsan", {"scale": 5}), "rel", ("grel", {"scale": 50})]),
    "C18": P("c18_stopwatch.cpp", "A case is a random history of 5 to 40 creations, restarts, clicks, copies and readings of stopwatches of one time unit (eleven units, integral and real) under a virtual clock whose time passes as chosen and whose date jumps; all stopwatches are compared with a model after every step. Non-trivial: ran its oracle; distinct by its logged history."),
    "C19": dict(P("c19_stack.cpp", "A case is a random chain of up to 400 calls of 21 kinds (functions, methods, operators, constructors, destructors, templates, hidden and C functions) at whose end stack traces are written (also in handlers, during unwinding, in threads with small stacks, concurrently, with other stream formats and without a usable error stream), the captured text being compared with the chain; or many traces whose memory and files are counted; also where traces are disabled. Non-trivial: ran its oracle; distinct by the chain."),
                units=[dict(sources=["c19_stack.cpp"], repo_sources=["src/stack_trace.cpp"], flags=["-DENABLE_STACK_TRACE"], libs=["-rdynamic", "-ldl"], quick=[("dbg", {"scale": 60}), "rel", ("tsan", {"scale": 60})], thorough=["dbg", "gsan", ("rel", {"repeat": 4}), "tsan"]),
                       dict(sources=["c19_stack.cpp"], repo_sources=["src/stack_trace.cpp"], libs=["-rdynamic", "-ldl"], quick=["rel"], thorough=["dbg", "rel", "tsan"])]),
    "C20": dict(P("c20_macros.cpp", "A case uses every macro with 18 forms of condition in ten contexts with random truths, conditions or explanations which throw, and random explanations; or equality assertions with random operands in eight forms; or variables named like the macros' own; or the unconditional errors; or notices, also those given once, in random numbers of calls. Non-trivial: ran its oracle; distinct by its logged truths and texts."),
                units=[dict(sources=["c20_macros.cpp"], flags=[f"-DPART={k}"], quick=[("dbg", {"scale": 50}), "rel"], thorough=THOROUGH) for k in range(2)]),
    "C21": P("c21_testing.cpp", "A case uses every verdict macro with random operands of twelve types, also in compound expressions and with variables named like the macros' own, tolerances, statements which throw one of six kinds of objects or nothing, types, or a random sequence of tests in test calls; verdicts are decided independently and counts, both streams and what goes on afterwards compared. Non-trivial: ran its oracle; distinct by its logged verdicts."),
    "C22": dict(P("c22_types.cpp", "Programs drawn from the seed: 160 lists of up to 14 of 66 types with six queries each, all pairs of these types as lists, and a list of 400 types; all pairs of 82 types with all relations, 500 callables with argument types, all pairs of 50 operand types with all operators. A case is one list, pair or call, whose answers in the compiled program are compared with those computed from the numbers by which the types were drawn, or with the validity and type of the written expression. Non-trivial: ran its oracle; distinct by the types drawn."),
                units=[dict(sources=["c22_types.cpp"], flags=[f"-DPART={k}"], programs=True, quick=["plain", "gplain"], thorough=[("plain", {"repeat": 12 if k % 2 == 0 else 1}), ("gplain", {"repeat": 12 if k % 2 == 0 else 1})]) for k in range(4)]),
    "C23": P("c23_writable.cpp", "A case writes an object of each of twelve writable types in every way (as itself, by the interface, by handles, to formatted, failed, full and temporary streams), or containers of such objects, or is a random history of 8 to 45 steps on five writers of one of four types; every call of a write method, its object and stream, the text and the lifetimes of the implementations are compared with a model. Non-trivial: ran its oracle; distinct by what was written."),
    "C25": P("c25_tuples.cpp", "A case makes pairs and tuples of references to variables of twelve pairs of types and assigns to them, or accesses the parts of nine kinds of tuples in all value categories, or is a random string with all constructions and a history of changes compared with a standard string, or converts some sixty values to strings. Non-trivial: ran its oracle; distinct by its logged values."),
    "C24": P("c24_threads.cpp", "A case is two to five threads which at the same time use own objects of every class of the library (each with the random choices it would have had alone) or read one set of shared constant objects, with injected delays, under the race detector; what each thread observes is compared with what it observes when alone. Non-trivial: the threads ran interleaved (other threads took the next step at least as often as there are threads); distinct by the tasks and the observed order of steps.",
             quick=["tsan", "rel"], thorough=[("tsan", {"repeat": 3}), ("rel", {"repeat": 2}), "dbg"]),
    "C26": P("c26_units.cpp", "A case uses every header in all units of the program and compares the results; or is a random history of objects made, copied, changed, read and destroyed in different units, compared with the same history in one unit; or throws, catches, draws, gives notices, looks at handles or runs failing tests across the units. Each run is a program of its own: the orders in which the units include the headers, and their division between program and shared libraries, are drawn from the seed. Non-trivial: ran its oracle, with several units; distinct by its logged history.",
             quick=[("dbg", {"timeout": 60}), ("grel", {"timeout": 60})], thorough=[("dbg", {"repeat": 3}), ("gsan", {"repeat": 2}), ("rel", {"repeat": 3}), ("grel", {"repeat": 3})],
             generate="c26/generate.py", programs=True, repo_sources=["src/stack_trace.cpp"], flags=["-DENABLE_STACK_TRACE", "-pthread"]),
    "C27": P("c27_constructors.cpp", "A case makes objects of a class which takes over the constructors of its base, and of the base, from the same random arguments of some forty kinds, and compares the bases and what becomes of the arguments; or records the addresses and value categories of up to four arguments; or is a random history of copies, moves, assignments and exchanges compared with a model after every step; or a failing construction. Non-trivial: ran its oracle; distinct by its logged history."),
}
