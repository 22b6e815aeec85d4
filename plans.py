"""Which harness builds decide which property, and how many runs each gets (quick, thorough)."""

K, M = 1000, 1000_000
SPSC = [("spsc", "assert", 1200 * K, 30 * M), ("spsc", "ndebug", 1200 * K, 30 * M)]


def seq(h, quick=1500 * K, deep=40 * M, variants=("assert", "ndebug")):
    return [(h, v, quick, deep) for v in variants]


SIMD = ("avx2", "sse", "assert")
PLANS = {
    "C01": SPSC, "C02": SPSC, "C03": SPSC, "C04": SPSC, "C05": SPSC,
    "C06": seq("array"), "C07": seq("array"), "C08": seq("array"),
    "C09": seq("heap"),
    "C10": seq("list"), "C11": seq("list"),
    "C12": seq("delegate"), "C13": seq("delegate"),
    "C14": seq("scoped"),
    "C15": seq("lib"),
    "C16": seq("env"),
    "C17": seq("bulk"),
    "C18": seq("threads", 500 * K, 12 * M, ("avx2", "assert", "sse")),
    "C19": seq("disjoint", 800 * K, 25 * M, SIMD),
    "C25": seq("product"), "C26": seq("product"),
}

X86 = ("x86-64 code generated by the installed g++ -O1 with -fsanitize=thread instrumentation; each instrumented access "
       "is one indivisible step")
NO_LB = "relaxed behaviours that need a load to take its value from a later store (load buffering) are not generated"
ELEMS = ["element types (trivial, instrumented with failing construction, copy, move and assignment, owning memory, over-aligned)",
         "heap and allocators (simulated memory that tracks every byte; any allocation may fail)"]
HIST = ("the history explored is a random sample; the reference model (std::vector of values and a registry of live "
        "objects and blocks) is trusted")
TRUST_MODEL = [X86, HIST]
DOC = {
    "spsc": {
        "rule": "A case is a queue type (compile-time or run-time sized, capacities 2-1024 and 131072, element u8/u64/40-byte "
                "struct/64-byte aligned/instrumented/heap-owning/move-only), an initial ring position, 1-16 operations for "
                "producer and consumer, optional hand-over of each role to another thread, an optional second phase.",
        "states": "(capacity, elements in the queue, ring position, element size) at quiescent points",
        "real": ["xme::SPSCQueue and its base classes", "xme::AlignedData", "std::allocator path"],
        "stub": ["threads (fibers under the simulated scheduler)", "memory model (store histories)",
                 "heap and allocators", "element types and consume callbacks (with injected failures)"],
        "assumptions": [X86, NO_LB,
            "the consumer pops or consumes only as many elements as an earlier query guaranteed (the documented use)"],
    },
    "array": {
        "rule": "A case is an element type, an allocator kind (std, stateful with each propagation choice), and up to 30 "
                "(in long runs hundreds of) "
                "operations on three Array objects, each with an optional failure at its n-th allocation, element operation or access to the source range (single-pass, multi-pass, pointer, list).",
        "states": "(operation, size and capacity of its object, element size, failed or not) after each operation",
        "real": ["xme::Array and its iterators", "xme::ranges uninitialized and destroy functions", "range-v3 as used by it"],
        "stub": ELEMS, "assumptions": TRUST_MODEL + [
            "after a failure that only promises a valid Array the model continues from what the Array then holds"],
    },
    "heap": {
        "rule": "A case is an element type and order (ascending, descending, by part of the value, so that many elements tie) and up to 60 operations (in long runs hundreds) on two Heaps "
                "with failing allocations and element operations.",
        "states": "(multiset of values in the heap) after each operation",
        "real": ["xme::Heap over xme::Array"], "stub": ELEMS,
        "assumptions": TRUST_MODEL + ["comparison functions do not throw (Heap's sifting is declared noexcept)",
                                      "moves of elements do not throw inside a Heap"],
    },
    "list": {
        "rule": "A case is an element type and up to 30 operations on three LinkedLists with failing allocations and element operations.",
        "states": "(lengths of the three lists, operation, element size) after each operation",
        "real": ["xme::LinkedList and its iterators"], "stub": ELEMS, "assumptions": TRUST_MODEL,
    },
    "delegate": {
        "rule": "A case is up to 30 operations on three Delegates, with callables of 21 kinds (functions, member functions, small, large, re-entrant, "
                "over-aligned, throwing-move, self-checking, trivially copyable) and failing copies, moves, allocations and calls.",
        "states": "(kinds of callable held by the objects, operation, failed or not) after each operation",
        "real": ["xme::Delegate"], "stub": ["callables", "heap (any allocation may fail)"], "assumptions": TRUST_MODEL,
    },
    "scoped": {
        "rule": "A case is a nested program of up to 14 steps: guarded scopes, early returns, loops, handlers and throws, with one failure anywhere in it.",
        "states": "hash of the sequence of guards created and run",
        "real": ["xme::ScopedDelegate"], "stub": ["guarded callables", "heap (any allocation may fail)"], "assumptions": TRUST_MODEL,
    },
    "lib": {
        "rule": "A case is up to 16 operations on three SharedLibrary objects; names of up to thousands of bytes lie in exactly sized memory without terminator; "
                "loading may be refused and allocations may fail.",
        "states": "(which object holds which library, operation, refused or not) after each operation",
        "real": ["xme::hal::SharedLibrary"], "stub": ["dlopen, dlsym, dlclose (a loader that counts references and refuses)", "heap (any allocation may fail)"],
        "assumptions": TRUST_MODEL + ["the dynamic loader behaves as POSIX describes"],
    },
    "env": {
        "rule": "A case is up to 16 reads and changes of environment variables; names and values of up to thousands of bytes lie in exactly sized memory without "
                "terminator; the system may refuse a change and allocations may fail.",
        "states": "(operation and values of all variables) after each operation",
        "real": ["xme::hal get_environment_variable and set_environment_variable"],
        "stub": ["setenv, unsetenv, secure_getenv, getenv (an environment that may refuse)", "heap (any allocation may fail)"],
        "assumptions": TRUST_MODEL,
    },
    "bulk": {
        "rule": "A case is an element type and up to five bulk operations over pointer, forward-list, generator, strided and unbounded ranges of "
                "up to 10 elements, each with a failure at its n-th construction.",
        "states": "(operation, its three parameters - source length, room, kind of range -, element size, failed or not)",
        "real": ["xme::ranges::uninitialized_copy_a, uninitialized_fill_n_a, destroy_a, destroy_n_a, destroy_at_a"],
        "stub": ELEMS, "assumptions": TRUST_MODEL,
    },
    "threads": {
        "rule": "A case is 2-6 threads of 1-14 operations, each with its own Array, Heap, LinkedList, Delegate, queue, tuple, matrix, library "
                "handle etc., and shared constant ones of every kind; operations may fail; one thread may be stalled.",
        "states": "hash of all results of all threads",
        "real": ["all headers of xme/container, xme/core, xme/ranges, xme/hal and xme/math that the operations use"],
        "stub": ["threads (fibers under the simulated scheduler)", "heap", "dlopen family and getenv", "element types and callables"],
        "assumptions": [X86, "std:: components and the system functions are as thread-safe as their standards say"],
    },
    "disjoint": {
        "rule": "A case is an element size (1, 2, 4, 8), up to four threads with adjacent parts of one buffer (0-140 elements, any alignment) and "
                "one shared read-only part, and up to six searches, reversals and writes per thread.",
        "states": "(element size, lengths of the parts, offset of the buffer)",
        "real": ["xme::find and xme::reverse: AVX2, SSE and scalar builds", "range-v3 fall-backs"],
        "stub": ["threads (fibers under the simulated scheduler)", "memory ownership map"],
        "assumptions": [X86, "vector loads and stores are one access of their full width"],
    },
    "product": {
        "rule": "A case is a choice of member types and up to 18 operations on Pairs, Tuples and bound callables, with failures of "
                "allocation, member operations and the called function.",
        "states": "(operation, which members of which objects are moved-from)",
        "real": ["xme::Pair, xme::Tuple, apply, tie, make_*, tuple_cat, forward_as_tuple", "xme::bind_front, xme::bind_back"],
        "stub": ELEMS + ["callables"], "assumptions": TRUST_MODEL,
    },
}
