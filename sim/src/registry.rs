//! The checks.
use crate::{c_checks as c, engine::Check};

const REAL: &str = "nanvm_lib::app::run with tokenizer, parser, module cache, path resolution, memory manager, big numbers and serializers; the provided methods of io_trait::Io (read_to_string, write) and std's read_to_string and write_all";
const STUB: &str = "the file system and its calls (io_trait::Io is implemented by the simulator), the allocator behind std::alloc (placement and reuse are simulated, memory is real), the source of hash keys (getrandom)";
const SMALL: &[&str] = &[
    "most projects have at most 7 modules and values of at most 60 nodes; now and then chains of 140 modules, files and outputs of lengths about powers of two up to 65536, 300 consts in a module, arrays of 20000 items, objects of 300 keys, nesting of 400, strings of 70000 characters, numbers of 1200 digits; what needs larger inputs is not reached",
    "the current directory is always known to the process",
    "the simulated file system has no symbolic or hard links; a module is identified by its lexically normalized path",
];

const VALUES: &str = "nanvm_lib::js (Any, strings, bigints, arrays, objects, visitors, casts), nanvm_lib::mem (managers, blocks, references, flexible arrays), serializers";
const MEMORY: &str = "the allocator behind std::alloc: placement, reuse, red zones and inaccessible pages are simulated; every block, release and access is accounted";
const CLIENTS: &[&str] = &["at most 4 clients with about a dozen references each; containers mostly of a few items, now and then arrays of 65536 items, 131072 references to one value, strings of 65537 units, big integers of 40 limbs, objects of 20 properties"];
const TEXTS: &[&str] = &["texts are modules without imports of at most about 40 values, and damaged variants of them"];

macro_rules! conv {
    ($id:literal, $f:ident, $quick:literal, $rule:literal, $probes:expr) => {
        Check {
            id: $id,
            run: c::$f,
            quick: $quick,
            rule: $rule,
            real: REAL,
            stub: STUB,
            assumptions: SMALL,
            probes: $probes,
        }
    };
}

pub fn checks() -> Vec<Check> {
    vec![
        conv!("C01", c01, 80000, "a run is one generated project and a conversion with disturbed I/O; it is non-trivial if the project has imports or a fault fired", &["reported success", "reported failure", "bigint in output"]),
        conv!("C02", c02, 80000, "a run is one project, an undisturbed conversion and one with a crash or a failing call; it is non-trivial if a fault fired or the conversion fails by itself", &["ended before the output", "ended while writing"]),
        Check {
            id: "C03",
            run: crate::exit::c03,
            quick: 40000,
            rule: "a run is one process of the command-line tool, started with generated arguments, files and faults; every run is non-trivial",
            real: "nanvm/src/main.rs as a process of its own, with all of nanvm_lib; std's Termination",
            stub: "the crate io-impl (operating system) is replaced by the simulator; stdout and stderr are /dev/null",
            assumptions: SMALL,
            probes: &["status 0", "other status"],
        },
        conv!("C04", c04, 60000, "a run is an undisturbed conversion and two with pieces of other sizes and interrupted calls; non-trivial if a call was cut short or interrupted", &["success", "failure"]),
        conv!("C05", c05, 60000, "a run is a sequence of conversions in one process, one of them with a module that cannot be read completely", &[]),
        conv!("C06", c06, 70000, "a run is one conversion of at least 3 modules while another process changes files", &["snapshot is valid", "snapshot is invalid"]),
        conv!("C07", c07, 80000, "a run is one conversion of a graph with possible cycles, in half of the runs rewritten while it is walked; non-trivial if there are imports", &["cyclic", "acyclic"]),
        Check {
            id: "C08",
            run: crate::caches::c08,
            quick: 40000,
            rule: "a run is a sequence of 3 to 7 parses that share a module cache, with read faults and changes of files between them; non-trivial if a parse succeeded after another had failed",
            real: "nanvm_lib::parser::parser::parse with ModuleCache, tokenizer, path resolution, memory managers",
            stub: STUB,
            assumptions: SMALL,
            probes: &["success after a failure", "several values from one cache", "failed: cycle", "failed: unreadable", "failed: invalid"],
        },
        conv!("C09", c09, 80000, "a run is one conversion of modules in several directories with decoys of the same names; non-trivial if there are imports", &["failing neighbour"]),
        conv!("C10", c10, 12000, "a run is the same conversion in three processes with other hash keys, addresses, histories and chunks; non-trivial if the output has at least two shared values", &["several shared values"]),
        conv!("C11", c11, 80000, "a run is one conversion with one module cut at a byte before the end of its value", &[]),
        conv!("C12", c12, 40000, "a run is a conversion killed or failed up to 3 times, repeated, and read back to every format; non-trivial if a fault fired", &["killed", "read back"]),
        Check {
            id: "C13",
            run: crate::threads::c13,
            quick: 10000,
            rule: "a run is 1 to 4 threads with 1 to 4 conversions each, interleaved at I/O calls and, in half of the runs, inside the code under test after chosen numbers of allocator calls and instructions, and every conversion alone in a process of its own; non-trivial if the threads were switched, or one thread ran several conversions",
            real: REAL,
            stub: "the file system and its calls, the allocator, the source of hash keys; threads are real and parked at every I/O call or instruction chosen by the simulator, which releases one at a time",
            assumptions: SMALL,
            probes: &["several threads", "one thread"],
        },
        conv!("C14", c14, 80000, "a run is one conversion with 1 to 4 corrupted pieces in its modules", &["accepted", "rejected"]),
        Check {
            id: "M02",
            run: crate::values::m02,
            quick: 200000,
            rule: "a run is a sequence of up to 70 steps of 1 to 4 clients that share values, over one of four memory managers; non-trivial if a value had more than one reference",
            real: VALUES,
            stub: MEMORY,
            assumptions: CLIENTS,
            probes: &["shared values", "fault: client disappeared"],
        },
        Check {
            id: "M03",
            run: crate::values::m03,
            quick: 16000,
            rule: "a run is a sequence of steps of clients over 1 to 4 local memory managers, with parses between the steps; non-trivial if a value had more than one reference",
            real: VALUES,
            stub: MEMORY,
            assumptions: CLIENTS,
            probes: &["parsed", "failed parse", "shared values"],
        },
        Check {
            id: "T01",
            run: crate::streams::t01,
            quick: 8000,
            rule: "a run is up to 5 token streams (pulled, pushed, at once) over up to 5 texts, interleaved and abandoned; non-trivial if the streams were switched more than twice",
            real: "nanvm_lib::tokenizer (tokenize, TokenizerStateIterator, TokenizerState::push_mut, create_transition_maps), range maps, big numbers, memory managers",
            stub: "character sources and the allocator",
            assumptions: TEXTS,
            probes: &["asked after the end", "fault: stream abandoned", "interleaved", "damaged text", "pushed to the end"],
        },
        Check {
            id: "T02",
            run: crate::streams::t02,
            quick: 8000,
            rule: "a run is up to 4 incremental parsers over up to 4 texts, interleaved, ended at any token and abandoned; non-trivial if the parsers were switched more than twice",
            real: "nanvm_lib::parser (JsonState, RootState, AnyState, ConstState, parse_with_tokens), tokenizer, memory managers",
            stub: "the allocator",
            assumptions: TEXTS,
            probes: &["complete", "cut", "token after an error", "fault: parser abandoned", "interleaved"],
        },
        Check {
            id: "W01",
            run: crate::sinks::w01,
            quick: 120000,
            rule: "a run is up to 3 values with shared parts and up to 14 serializations into sinks that fail, accept a part or serialize themselves; non-trivial if a sink failed",
            real: "nanvm_lib::serializer (WriteJson, WriteDjs, to_json, to_djs), values and memory managers",
            stub: "output sinks and the allocator",
            assumptions: &["values of at most about 60 nodes"],
            probes: &["fault: sink accepts a part", "fault: sink fails once", "fault: sink fails", "fault: sink serializes", "shared values"],
        },
        Check {
            id: "M05",
            run: crate::panics::m05,
            quick: 24000,
            rule: "a run is a sequence of up to 60 steps of clients with panics of iterators, destructors, visitors, sinks, modifications and a memory manager; or up to 10 token streams and parses with panics of their sources; or up to 6 conversions and parses with panics of the Io; non-trivial if a panic was raised",
            real: "nanvm_lib::mem (managers, blocks, references, flexible arrays, constructors), nanvm_lib::js, tokenizer, parser, serializers, nanvm_lib::app::run",
            stub: MEMORY,
            assumptions: &["a module cache that was in use during a panic is discarded", "at most 3 clients with about a dozen references each"],
            probes: &["fault: iterator panics", "fault: drop panics", "fault: visitor panics", "fault: sink panics", "fault: manager panics", "fault: modification panics", "fault: character source panics", "fault: token source panics", "fault: Io panics", "fault: iterator ends early"],
        },
        Check {
            id: "M01",
            run: crate::memory::m01,
            quick: 16000,
            rule: "a run is up to 3 jobs (conversion, parses with a module cache, token stream, incremental parser, analyzer, serialization), each with its faults and abandoned points, executed 3 times; every run is non-trivial",
            real: "nanvm_lib::app::run, parser, tokenizer, serializers, values, memory managers",
            stub: MEMORY,
            assumptions: &["memory that is kept from a first execution on and does not grow in later ones is not a leak"],
            probes: &["fault: invalid module", "fault: missing module", "damaged text"],
        },
        Check {
            id: "M04",
            run: crate::oom::m04,
            quick: 8000,
            rule: "a run is a conversion, a parse, a serialization or a history of clients, repeated in processes of their own in which a chosen request for memory (or it and all later ones) fails; or an array that needs more memory than there is; non-trivial if a request failed",
            real: "nanvm_lib::app::run, parser, tokenizer, serializers, values, memory managers; std's handling of failed allocations",
            stub: "the allocator behind std::alloc, which fails requests; the file system and its calls",
            assumptions: &["a process that ends does so by a failure, a panic or an abort"],
            probes: &["ended by an abort", "fault: one request fails", "fault: all requests fail", "fault: more memory than there is", "reported an error"],
        },
        Check {
            id: "M06",
            run: crate::sharing::m06,
            quick: 24000,
            rule: "a run is 2 to 4 threads with up to 9 operations each on values they share, interrupted after chosen numbers of instructions; non-trivial if a thread was interrupted inside the library",
            real: "nanvm_lib::mem (global manager, reference counts, references), nanvm_lib::js (Any, strings, bigints, arrays, objects), serializers, as machine code",
            stub: "the scheduler of threads: they are real and exactly one is released at a time; the allocator; waiting for locks",
            assumptions: &["memory is sequentially consistent: interruptions are placed at instructions, reordering by the processor or the compiler is not simulated"],
            probes: &[],
        },
    ]
}
