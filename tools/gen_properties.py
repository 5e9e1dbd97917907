#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
L = "nanvm-lib/src/"
APP, PARSER, PATH, SHARED = L+"app/mod.rs", L+"parser/parser.rs", L+"parser/path.rs", L+"parser/shared.rs"
ANY_STATE, ROOT_STATE, JSON_STATE, CONST_STATE = (L+"parser/%s_state.rs" % x for x in ("any", "root", "json", "const"))
TOK, TOJSON, TODJS = L+"tokenizer/mod.rs", L+"serializer/to_json.rs", L+"serializer/to_djs.rs"
MEM = L+"mem/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IO = "the Io passed to run/parse (open, read, create, write calls) and the files left behind"
p("C01", "A conversion reported as successful has written the whole correct output",
  "When converting an input module to a .json, .d.cjs or .d.mjs output reports success, the output path holds one complete, well-formed document of the requested format that denotes exactly the value of the input module as it was read, with every number, string, bigint, key, element order and (in .d.cjs/.d.mjs) sharing of objects and arrays preserved. This holds whatever the writes do: short writes and interrupted calls are completed, and a write that fails, makes no progress or runs out of space is never reported as success. A conversion of valid modules that meets no hard I/O failure does succeed.",
  ["inputs", "fault_sequences", "configurations"], "all module graphs and output formats, and all sequences of create/write outcomes (errors, short writes, EINTR, zero-length writes, ENOSPC at any byte)",
  "The tests write a few tiny outputs to an in-memory file system that never fails and never writes less than asked.",
  [APP, TOJSON, TODJS, PARSER], [("run writes the serialized text through Io::write and returns its result", APP), ("const tracking preserves sharing", TODJS)], [IO])
p("C02", "A failed or interrupted conversion damages nothing but its own output",
  "A conversion never creates, truncates, modifies or removes any file other than its output path. The output path itself is not touched at all unless the input and everything it imports has been read and parsed and the value has been serialized, so a conversion that fails before (bad arguments, unreadable or invalid input or import, unrepresentable value) or is killed before leaves the previous output intact; one that fails or is killed while writing leaves a prefix of the correct output.",
  ["fault_sequences", "crash_points", "inputs"], "every I/O fault and every kill point at any seam call of a conversion, over all module graphs and earlier contents of the output",
  "The only failure test checks that an invalid output extension is an error; no test looks at the file system after a failure or stops a conversion half way.",
  [APP, PARSER], [("the output is created only after parse and serialization returned Ok", APP)], [IO])
p("C03", "The exit status of the command-line tool tells the truth",
  "The nanvm process exits with status 0 if and only if the requested conversion was completed and its output fully written; on any failure (missing or wrong arguments, unreadable input or import, invalid module, unrepresentable value, failed write) the exit status is non-zero.",
  ["fault_sequences", "inputs"], "all argument vectors, module graphs and I/O fault sequences met by the process",
  "No test runs the binary.",
  ["nanvm/src/main.rs", APP], [("main returns the result of run", "nanvm/src/main.rs")], ["exit status of the process", IO])
p("C04", "How storage delivers the bytes of a module never changes the result",
  "The outcome of a conversion (success or failure, and the output bytes) depends only on the bytes of the files it reads: splitting reads into pieces of any size (also in the middle of a multi-byte character), interrupting reads, and completing writes in pieces of any size give exactly the outcome of an undisturbed run.",
  ["schedules", "inputs", "fault_sequences"], "all ways to partition every read and write into partial transfers and EINTR interruptions",
  "The in-memory file system of the tests always delivers a whole file in one read.",
  [APP, PARSER, TOK], [("modules are read through Io::read_to_string", PARSER), ("output goes through Io::write", APP)], [IO])
p("C05", "A module that cannot be read completely is never treated as read",
  "If opening or reading the input or any module it imports fails at any point (missing file, permission, I/O error after any number of bytes, bytes that are not valid UTF-8), the conversion fails and produces no output, whatever partial content had been delivered before the failure, and also when the same module had been read successfully for an earlier conversion. Once the failure is gone the same conversion succeeds again.",
  ["fault_sequences", "inputs", "histories"], "every position of a failing open/read call in every module graph, at every byte offset",
  "Tests cover one missing file; none delivers part of a file before an error.",
  [PARSER, APP], [("read errors map to CannotReadFile", PARSER)], [IO])
p("C06", "Within one conversion a module is read once and seen the same everywhere",
  "During one conversion every module is read at most once, however many modules import it and however the import paths spell it (redundant separators, '.' and 'dir/..' components), and all importers observe that one snapshot, even when the file changes, disappears or starts failing between the imports. In .d.cjs/.d.mjs outputs all importers refer to the same shared object.",
  ["schedules", "histories", "inputs"], "all module graphs with shared modules and all interleavings of a concurrent writer with the reads of the conversion",
  "The cache test imports one module twice from a static in-memory file system and cannot see how often it was read.",
  [PARSER, SHARED, PATH], [("ModuleCache.complete keyed by normalized path", PARSER)], [IO], None,
  [("ModuleCache.complete", "values of modules already parsed", SHARED)])
p("C07", "Import cycles are reported and every conversion ends",
  "A conversion whose modules import each other in a cycle of any length (also a module importing itself or the root, also under another spelling of the path) fails without writing output, and an acyclic graph is never reported as circular. Every conversion ends after a number of file reads bounded by the number of distinct modules, also when files are rewritten concurrently so that the graph changes while it is walked.",
  ["inputs", "schedules", "histories"], "all import graphs, path spellings and concurrent rewrites of modules",
  "Tests cover one two-module cycle with identical spellings on a static file system.",
  [PARSER, PATH, SHARED], [("ModuleCache.progress", PARSER)], [IO], None,
  [("ModuleCache.progress", "modules being parsed", SHARED)])
p("C08", "A module cache stays usable and truthful after failures",
  "When several root modules are parsed with one module cache, in any order and after any failures of earlier parses (I/O errors, syntax errors, cycles), a parse succeeds whenever its modules are now readable and valid and returns their value; it never reports a circular dependency that does not exist. An imported module that was completely parsed through the cache is returned to later importers as parsed then, and nothing from a module that failed is remembered.",
  ["histories", "fault_sequences"], "all sequences of parses sharing a cache, with faults that appear and heal between and inside them and concurrent file changes",
  "No test reuses a module cache.",
  [PARSER, SHARED], [("progress and complete sets", SHARED)], ["results of parse() with a shared ModuleCache", IO])
p("C09", "Imports resolve relative to the importing module",
  "Every import path is resolved against the directory of the module that contains it (or from the root when it is absolute), with '.', '..' and redundant separators handled as by a file system, no matter how the root path was given (absolute, relative, with '.' or '..' components), how deep the importing module is, which working directory the process has, or whether neighbouring imports failed or came from the cache. No other file is ever opened.",
  ["inputs", "histories", "configurations"], "all directory layouts with same-named decoy files, root spellings, working directories and import chains",
  "Test modules all live in one directory and are imported by bare names.",
  [PATH, PARSER], [("concat/normalize/split", PATH), ("directory of the current module", PARSER)], [IO])
p("C10", "Output bytes do not depend on hash seeds, addresses or history",
  "Converting the same files to the same format gives byte-identical output in every run: it does not depend on the per-process hash seed, on where the allocator places values, on other work done in the process before, or on chunking of I/O.",
  ["schedules", "inputs", "histories"], "all module graphs (notably with many shared objects), all hash seeds and all allocator placements",
  "Tests compare outputs whose order is forced by a dependency between the only two shared values, under one arbitrary hash seed per run.",
  [TODJS, TOJSON], [("consts are numbered in traversal order", TODJS)], ["output bytes of conversions and of to_djs/to_json"])
p("C11", "A torn module is never accepted",
  "A module whose value is an object, an array, a string or an unfinished statement and whose stored text is cut at any byte (torn or truncated write, lost tail) is never accepted as a complete module: the conversion that reads it, directly or through an import, fails and writes nothing.",
  ["crash_points", "inputs", "fault_sequences"], "every cut position of every module text, for files truncated at rest, reads that end early, and outputs torn by a crash of the tool itself and then used as input",
  "Tests feed a handful of hand-written incomplete token lists to the parser.",
  [PARSER, JSON_STATE, TOK], [("JsonState::end and TokenizerState::end reject unfinished states", JSON_STATE)], [IO])
p("C12", "What the tool wrote it can read back, and repeating a conversion repairs it",
  "Every output of a successful conversion is itself a valid input: converting it again, to any format that can represent the value, succeeds and yields the same value, and converting it to its own format yields the same bytes. After a conversion was killed or failed at any point, repeating it when the faults are gone gives the same output file as an undisturbed run.",
  ["histories", "crash_points", "inputs"], "all chains of conversions between formats with crashes and faults at any point followed by retries",
  "No test reads an output back.",
  [APP, TODJS, TOJSON, TOK, ROOT_STATE], [("serializers write the grammar the parser accepts", TODJS)], [IO])
p("C13", "Conversions in one process do not influence each other",
  "Conversions run one after another or concurrently on several threads of one process, interleaved at any I/O call and each meeting its own faults, give exactly the outcomes they give when run alone: no result, error, cached module or partial state leaks from one to another.",
  ["schedules", "histories", "fault_sequences"], "all histories of conversions and all interleavings of concurrent conversions at their I/O calls",
  "Every test runs one conversion of unchanging files.",
  [APP, PARSER, TOK], [("each run has its own module cache and context", APP)], [IO])
p("C14", "Corrupted storage leads to an error or a well-formed output, never a crash",
  "Whatever bytes storage delivers for the input or any import (bit flips, zeroed, duplicated, dropped or swapped pieces, tails of an older version), a conversion ends by returning an error or by writing a complete well-formed document of the requested format; it does not panic, abort, hang or touch other files.",
  ["fault_sequences", "inputs"], "all corruptions of the delivered bytes of all modules of a conversion",
  "Tests feed a few dozen hand-written invalid inputs to tokenizer and parser.",
  [PARSER, TOK, ANY_STATE, ROOT_STATE, CONST_STATE, TOJSON, TODJS], [("error tokens and ParseError", TOK)], [IO])
p("M01", "Parsing and serializing release all memory exactly once on every path",
  "Whatever happens while modules are tokenized, parsed, imported and serialized (success, syntax error, failing read, cycle, cancelled token stream, failing sink), once the results are dropped every block that was allocated has been released exactly once and with the layout it was allocated with, no block is accessed after its release and no access goes past the end of a block.",
  ["inputs", "fault_sequences", "crash_points"], "all inputs and all points at which I/O, the token stream or the output sink fails or is abandoned",
  "Tests check counters for a few hand-written allocations and never inspect the heap after an error.",
  [MEM+"block.rs", MEM+"manager.rs", MEM+"optional_ref.rs", L+"js/any_internal.rs", PARSER, TOK], [("reference counting in OptionalRef and Block::delete", MEM+"optional_ref.rs")], ["calls to the global allocator"])
p("M02", "Shared values live exactly as long as somebody refers to them",
  "For any interleaving of clients that create, copy, convert, put into arrays and objects, read, and drop references to values: every reference reads the value it was created with, a value is released exactly when its last reference (including those from containers and from other clients) goes away and not earlier, and exclusive access is granted exactly when there is one reference. A client that disappears at any point releases only what it held.",
  ["histories", "schedules"], "all histories of operations of several clients over shared values, with clients disappearing at any point",
  "Tests exercise single fixed sequences of two or three operations.",
  [MEM+"optional_ref.rs", MEM+"ref_.rs", MEM+"mut_ref.rs", MEM+"block.rs", MEM+"block_header.rs", L+"js/any.rs", L+"js/any_internal.rs"], [("reference counter", MEM+"block_header.rs")], ["values read through references, allocator calls of the memory manager"])
p("M03", "A local memory manager accounts for exactly what it holds",
  "At every moment the size reported by a local memory manager equals the number of bytes it holds from the system for blocks that have not been released, so it returns to its earlier value when the values created since are dropped and to zero when all are; managers used side by side never affect each other's account, whatever the order of creation and release and whichever parses failed in between.",
  ["histories", "fault_sequences"], "all histories of allocations and releases over several local managers, including parses that fail at any point",
  "Tests check sizes after one or two fixed allocations on one manager.",
  [MEM+"local.rs", MEM+"field_layout.rs"], [("Local::alloc and Dealloc for &Local", MEM+"local.rs")], ["Local::size and calls to the global allocator"])
p("M04", "Running out of memory stops the process cleanly",
  "If the system allocator fails any request made on behalf of a conversion or of a memory manager, the process stops in an orderly way (the allocation-error abort) or the operation fails; it never writes through an invalid pointer, never carries on with a wrong value, and never reports success for, or leaves in the output path, anything but the correct output or a prefix of it.",
  ["fault_sequences", "inputs"], "every single failing allocation of every conversion and of every sequence of manager operations",
  "No test makes an allocation fail.",
  [MEM+"global.rs", MEM+"local.rs", MEM+"manager.rs"], [("allocation failure handler", MEM+"global.rs")], ["how the process ends", IO])
p("M05", "A panic in caller-supplied code never corrupts memory",
  "When code supplied by a caller panics at any point inside the library (an item iterator given to a constructor, a character source, an output sink, an Io implementation, a visitor callback, or the drop of a stored item) and the panic is caught, no block is released twice or used after release, every value that existed before is intact and still released exactly once, and the library works normally afterwards.",
  ["crash_points", "fault_sequences", "inputs"], "every call of every caller-supplied callback as the point of a panic",
  "No test panics inside a callback.",
  [MEM+"flexible_array/constructor.rs", MEM+"manager.rs", L+"common/ref_mut.rs", TOK, TOJSON, TODJS], [("construction order in Manager::new", MEM+"manager.rs")], ["allocator calls and values after the panic"])
p("M06", "Values of the global manager may be shared between threads",
  "Values made with the global manager may be cloned, read, converted, modified where sole ownership permits it, sent and dropped by several threads at once: under every interleaving each object is destroyed exactly once, after its last use by any thread; exclusive access is granted only to the holder of the only reference; and every thread reads the values that were stored.",
  ["schedules", "histories"], "all interleavings, at the level of machine instructions and of the memory model of the language, of any number of threads",
  "The tests are single-threaded.",
  [MEM+"global.rs", MEM+"block_header.rs", MEM+"ref_.rs", MEM+"optional_ref.rs", MEM+"optional_block.rs"], [("reference counter", MEM+"block_header.rs"), ("try_to_mut_ref", MEM+"ref_.rs")], ["contents of values read by each thread, allocator calls"])
p("T01", "Token streams do not depend on how characters arrive",
  "The tokens of a text are the same whether the text is tokenized at once, pulled token by token from a character source, or pushed character by character with other tokenizers sharing the same tables in between; each token is available as soon as the text determines it and pulling never consumes the character source further than needed for the next token. Abandoning a stream at any point disturbs nothing, and after its end a stream stays ended without touching its source again.",
  ["schedules", "inputs", "crash_points"], "all texts, all interleavings of several streams, all points of abandonment and end of input",
  "Tests only call tokenize on whole short strings.",
  [TOK], [("TokenizerState::push_mut", TOK), ("TokenizerStateIterator", TOK)], ["tokens returned, characters pulled from the source"])
p("T02", "The incremental parser agrees with the whole-module parser at every cut",
  "Feeding the tokens of a module without imports one at a time to the incremental parser, interleaved in any way with other parsers, ends in the value and module type (or the error) that parsing the whole token stream gives; ended after any proper prefix it reports an unexpected end unless that prefix is itself a complete module, an error once reported stays reported, and abandoning it at any point releases everything it held.",
  ["schedules", "inputs", "crash_points"], "all token streams, cut points and interleavings of parser instances",
  "No test uses the incremental parser.",
  [JSON_STATE, ANY_STATE, ROOT_STATE, CONST_STATE, PARSER], [("JsonState::push and JsonState::end", JSON_STATE)], ["results of push/end and of parse_with_tokens"])
p("W01", "A failing output sink stops serialization at once and is reported",
  "Serializing a value (as JSON, ESM or CommonJS) into a sink that fails at any point returns an error, the sink is not written to again after the failure, and what it accepted is a prefix of the complete text; with a sink that does not fail the complete text is written. The value serialized and other holders of its parts are unaffected and a later serialization gives the complete text.",
  ["fault_sequences", "inputs"], "every write call to the sink as the point of failure, all values including those with shared parts",
  "Tests serialize into strings, which never fail.",
  [TOJSON, TODJS], [("every write result is propagated", TOJSON)], ["calls on the fmt::Write sink"])
# --- not decidable by deterministic simulation: pure functions of their input
p("P01", "A decimal literal denotes the nearest double",
  "Every JSON number literal is converted to the IEEE 754 double nearest to its decimal value, ties to even, overflowing to infinity and underflowing to zero.",
  ["inputs"], "all number literals", "Tests sample some dozens of literals.",
  [TOK, L+"big_numbers/big_float.rs"], [("BigFloat::to_bin/to_f64", L+"big_numbers/big_float.rs")], ["Number tokens"])
p("P02", "Big integer operations agree with integer arithmetic",
  "Addition, subtraction, multiplication, division, power, shifts and bitwise operations on big integers agree with the mathematical (two's complement) results for all operands.",
  ["inputs"], "all operand pairs", "Tests sample a few operands per operation.",
  [L+"js/js_bigint.rs", L+"big_numbers/big_uint.rs", L+"big_numbers/big_int.rs"], [("schoolbook algorithms", L+"js/js_bigint.rs")], ["results of the operations"])
p("P03", "Range maps agree with point-wise merging",
  "Looking a key up in merged range maps gives the point-wise merge of looking it up in each map, and merging rejects exactly the conflicting definitions.",
  ["inputs"], "all lists of range maps and keys", "Tests merge a few hand-written maps.",
  [L+"range_map.rs"], [("merge", L+"range_map.rs")], ["RangeMap::get"])
p("P04", "The parser accepts exactly the documented grammar",
  "A text is accepted exactly when it is a JSON document or a DJS module of the documented grammar, and it is then given the documented value.",
  ["inputs"], "all texts", "Tests sample accepted and rejected texts; the grammar documentation is informal.",
  [TOK, PARSER, "notes/djs.md"], [("state machines", TOK)], ["parse results"])
p("P05", "Tagged values of different types never share a representation",
  "The representation of a number, boolean, null or reference inside a tagged value is recognized as exactly its own type and converts back to the same value.",
  ["inputs"], "all 64-bit values", "Tests sample some values per type.",
  [L+"js/bitset.rs", L+"common/bit_subset64.rs", L+"js/any.rs"], [("disjoint bit subsets", L+"js/bitset.rs")], ["Any::get_type, Any::try_move"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
