C.update({
"C03": ("the tool runs as a process of its own over a simulated operating system with seeded arguments, files, faults and crashes; exit status judged against the journal of its I/O",
        "main.rs is compiled from /repo with a replacement of the crate io-impl; status 0 requires the complete correct output in the journal."),
"C08": ("seeded sequences of parses sharing a module cache with read faults and file changes between them, refined against an executable reference model",
        "The model evaluates what was delivered; a module that was parsed as a root is not changed afterwards (whether roots are cached is not specified)."),
"C13": ("conversions on several threads interleaved at I/O calls, and at seeded allocator calls and machine instructions inside the code under test, by a seeded scheduler, compared with each conversion alone in its own process",
        "Differential against the same code alone; one thread runs at a time."),
"M02": ("seeded histories of clients that create, share, convert, modify and drop values, some of them disappearing, next to an executable reference model with exact reference counts",
        "Every step is followed by checks of block counts, drops and values; four memory managers (global, local and two of a caller); placement, reuse, red zones and inaccessible pages are simulated."),
"M03": ("seeded histories of clients over several local managers with parses that succeed and fail in between; the reported size is compared with the bytes requested from the simulated system allocator after every step",
        "The bytes of a value are measured at the allocator when it is created, the model decides when it is released."),
"T01": ("seeded interleavings of token streams in three styles over shared tables with simulated character sources, damaged texts, abandonment and calls after the end",
        "Differential against whole-text tokenization, plus the earliest position at which a prefix of the text determines a token; the meaning of a token is not judged."),
"T02": ("seeded interleavings of incremental parsers, cut and abandoned at any token, compared with the whole-module parser at every prefix",
        "Differential; value, module type or error have to agree, and memory has to be released."),
"W01": ("seeded values with shared parts are serialized in three formats into simulated sinks that fail at a call or byte, once or from then on; history of the sink judged afterwards",
        "The complete text is taken from the same serializer with a sink that does not fail; other holders are compared with a model."),
"M05": ("seeded panics in constructors, destructors, iterators, visitors, managers and I/O at a chosen count, in histories of a world of shared values; blocks, drops and values accounted afterwards",
        "A panic is caught at the point of the call into the library; module caches in use during a panic are discarded."),
"M06": ("threads that share values are interrupted at seeded machine instructions (processor trap flag) by a seeded scheduler, next to a model of the references that surely exist; placement, reuse, red zones and inaccessible pages of the allocator are simulated; a second simulator (an interpreter, Miri, with seeded schedules, stale reads and addresses) runs similar scenarios under the memory model of the language and reports data races",
        "Interleavings of whole instructions of one processor (x86-64, code compiled as shipped), and of basic blocks under the memory model."),
"M01": ("seeded jobs (conversions, parses, streams cut off anywhere, failing sinks and I/O) executed three times under a simulated allocator; the live blocks after the repetitions have to be those from before; a second simulator (an interpreter, Miri, with seeded texts and addresses) executes tokenizing, parsing and serializing and reports invalid accesses and leaks",
        "A first execution may fill lazily initialized tables; leaks that happen only once per process are not reported."),
"M04": ("conversions, parses, serializations and histories of clients repeated in forked processes in which a seeded request to the simulated allocator fails (once or from then on); the way each process ends and the journal of its I/O are judged",
        "A process may end by an abort, a panic or an error; signals of invalid accesses, wrong values, and files that are no prefix of the correct output are violations. The code is compiled as shipped (without overflow checks)."),
})
