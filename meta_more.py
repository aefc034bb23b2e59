prop("C14", "No call touches invalid memory, has undefined behaviour, leaks or hangs",
     "Whatever finite paths, element streams, strings or rmath arguments are given, in whatever order calls are made, no call reads or writes memory that is not its own, performs an undefined operation, or runs without end; when every object is destroyed all memory is released. An exception thrown by the caller's own callback reaches the caller, leaks nothing and leaves the processor usable.",
     ["inputs", "histories", "fault_sequences"], "all families of C01 and C02 (with stated strides), all element streams of 5 elements, all strings of length 6 over 10 characters, an exception at every output callback, every rmath entry point on all 3x3-grid cubics",
     "Tests run two inputs without sanitizers; an overrun or leak needs a particular topology, stream or exception point and is invisible in the output.",
     VATTI + ["src/src/path.cpp", "src/src/river.cpp"], [dict(name="object pools, vertex and edge ownership, output buffers, path storage", where="src/src/vatti.cpp, src/src/path.cpp, src/src/processor.cpp")],
     ["sanitizer reports, allocated bytes before and after, callbacks' exceptions"], [dict(harness="c14", flavour="asan")],
     "see families: every case runs under the address and undefined-behaviour sanitizers and is followed by an allocation balance", [REAL, COORD, "Memory exhaustion is not explored."],
     "Exhaustive within the listed families, executed on an instrumented build of the working tree.",
     "exhaustive enumeration of inputs, histories and exception points on the instrumented real code", [dict(name="heap", meaning="allocated bytes, object lifetimes", where="whole library")])

prop("C15", "Threads using different objects do not influence each other",
     "Threads that work on different processors and paths, parse text or call rmath concurrently get bit for bit the results they would get alone, whatever the interleaving: no hidden state is shared between objects or calls. The same holds when one processor is used from inside a callback of another.",
     ["schedules", "configurations"], "all schedules with one preemption at any basic block of 8 programs x 8 programs, from a cold start as well; two preemptions at the first visits of blocks; strict alternation with every quantum; nesting in every callback",
     "Tests are single-threaded; an unprotected static buffer, cache or lazy initialisation only shows under a switch at a particular point.",
     ["src/src/rmath.cpp", "src/src/vatti.cpp", "src/src/river.cpp", "src/src/path.cpp", "src/src/processor.cpp"], [dict(name="absence of shared mutable state", where="whole library")],
     ["results of each thread"], [dict(harness="c15", flavour="cov")],
     "preemption bound 1 at every basic block (including cold start at every distinct block), bound 2 at first visits of blocks, quanta 1..300 (3000), 8 programs pairwise",
     [REAL, "A basic block and a standard-library call are atomic; memory is sequentially consistent.", "Exactly two threads."],
     "Exhaustive within the preemption bound: two real threads under a controlled scheduler with a switch point at every basic block.",
     "stateless model checking of thread interleavings of the real code under a controlled scheduler with preemption bounds", [dict(name="schedule", meaning="blocks executed by each thread", where="every basic block of the library")])

prop("C18", "Results do not depend on where memory lies or what it contains",
     "The same inputs give bit for bit the same output (elements, order and coordinates) whatever addresses the allocator hands out, whatever bytes fresh memory contains, and whatever was computed in the process before. Results are thus reproducible from run to run and no result depends on uninitialised memory or on the order of addresses.",
     ["inputs", "configurations"], "all cases of the line and curve families (with stated strides) x 5 address orders x 4 fill patterns of fresh memory",
     "Tests run in one process with one allocator and mostly zeroed fresh pages.",
     VATTI + ["src/src/path.cpp", "src/src/river.cpp"], [dict(name="containers ordered by geometry, member initialisation, tie-breaking in sorts", where="src/src/vatti.cpp, src/src/vatti.h, src/src/scan_line.h, src/src/segment.h")],
     ["processor::process output, make_path, rmath results"], [dict(harness="c18")],
     "ascending, descending, alternating, reusing and scattered addresses x fill patterns 0x00, 0xff, 0xa5, 0x7f; every ordered pair of 96 programs, the second compared with a run in a fresh process; see families", [REAL],
     "Exhaustive over the listed environments and families; outputs compared bit for bit.",
     "exhaustive enumeration of memory environments x bounded input families on the real code", [dict(name="allocator", meaning="address order and contents of fresh memory", where="operator new")])

prop("C17", "Results are valid inputs: chained operations obey set algebra",
     "The output of an operation can be used as input of further operations, and the chain computes the set-algebraic combination of the original regions: (A-B) u (A^B) = A, (A u B) - (A^B) = (A-B) u (B-A) = A xor B, (A xor B) xor (A^B) = A u B, (A-B) and (A^B) are disjoint, a result united with nothing or intersected with itself is unchanged under any fill rule that keeps its sign, and for straight edges also (A u B) - B = A-B, (A xor B) xor B = A, (A^B) - A = nothing, (A-B) u B = A u B.",
     ["inputs", "histories"], "all line and curve families (with stated strides) x fill rules x 12 laws (8 for curves), each law being a chain of two or three operations",
     "No test feeds a result back; outputs share whole and partial edges, vertices lie on edges of the other operand only up to rounding, and many contours touch, which hand-written inputs hardly ever do.",
     VATTI, [dict(name="shared edges, collinear pieces up to rounding, touching contours", where="src/src/vatti.cpp, src/src/rmath.cpp intersect")],
     ["processor::process output of the last operation of a chain"], [dict(harness="c17")],
     "the line families of C01 and the curve families of C02, every case or the stated stride, chains of 2 or 3 operations", [REAL, COORD, GP, "Curved cases whose edges have a horizontal inflection, or an extremum within 2e-4 of their end, are skipped (their results contain vertices 1e-8 apart); edges leaving one vertex at less than 3e-7 are not chained (vertices 1e-8 apart, the finding recorded under C01); laws that lay a piece of a curve over the whole curve are stated for straight edges only, the library does not handle partially overlapping curves."],
     "Exhaustive within the listed families and laws against the winding-number model of the original inputs.",
     "exhaustive enumeration of chains of operations over bounded input families on the real code, explicit reference model as oracle", [dict(name="intermediate result", meaning="contours produced by the first operations", where="processor output")])
