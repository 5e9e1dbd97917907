#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
C = {
"C01": ("seeded projects and write/read faults behind io_trait::Io, output read by an independent reader and compared with an independent evaluation of the modules",
        "Samples module graphs, formats and I/O fault sequences. Trusts the simulator's file system and the harness's own reader of outputs."),
"C02": ("seeded kill points and call failures, full file-system diff against a reference run",
        "Samples kill points at every seam call and byte; files other than the output must be byte-identical, the output untouched or a prefix."),
"C04": ("seeded partitions of reads and writes and interruptions, outcome compared with an undisturbed run",
        "Differential against the same code on undisturbed I/O, so it trusts no oracle for values."),
"C05": ("seeded failing opens/reads at every byte offset inside sequences of conversions",
        "Samples the failing call and offset; success, output and opened files are judged."),
"C06": ("seeded interleavings of a concurrent writer with the reads of a conversion; snapshots recorded at each open",
        "The value of the output must be the value of the recorded snapshots; each module may be opened once."),
"C07": ("seeded cyclic and acyclic graphs with path spellings and concurrent rewrites, bounded opens and processor time",
        "Liveness is a bound on opens (number of modules) and on processor time of a run."),
"C09": ("seeded directory layouts with decoys, spellings and failing neighbours; every opened path judged against a file-system model",
        "Path semantics of the simulated file system are lexical (no links)."),
"C10": ("the same conversion in several simulated processes with other hash keys, allocator placement, history and chunking",
        "Differential; placements come from a simulated allocator in four modes, hash keys from a simulated getrandom."),
"C11": ("modules torn at every byte offset (durably or by early end of file)",
        "Samples the module and the offset; acceptance of a torn module or a touched output is a violation."),
"C12": ("kill, restart and repeat histories, outputs read back through every format",
        "The value of the final output is compared with the independent evaluation, and a second conversion with the first."),
"C14": ("seeded bit flips, lost/duplicated/zeroed/misdirected blocks in stored modules",
        "Judges panics, signals, hangs, well-formedness and the untouched output; which corruptions must be rejected is not specified."),
}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_more.py")).read())
NA = {
"P01": "a pure function of the literal text: no schedule, clock, I/O, fault or history can influence it, so a simulator has nothing to control; deciding it needs input generation or proof",
"P02": "pure arithmetic on values: nothing for a simulator to schedule or fail (only allocation failure and lifetime of bigint values are simulated, under M01-M04)",
"P03": "pure functions over in-memory maps without any nondeterminism or multi-party behaviour",
"P04": "acceptance is a pure function of the module text; how the text arrives, is torn, corrupted or interleaved is simulated under C04, C11, C14, T01 and T02",
"P05": "a pure bijection between values and 64-bit words: no schedule, fault or history takes part in it",
}
checks = []
for k in sorted(C):
    t, note = C[k]
    checks.append({"property": k, "quick_cmd": f"./check {k} quick", "thorough_cmd": f"./check {k} thorough",
                   "evidence_file": f"evidence/{k}.json", "technique": T + t, "level": "exploration", "level_note": note})
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../properties.jsonl"))]
na = [{"property": k, "reason": NA.get(k, "the check is not built yet")} for k in props if k not in C]
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the code under test is compiled unchanged; io_trait::Io, the global allocator and getrandom are the seams", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Known findings and repaired defects: known-findings. Replays: ./replay FILE."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../MANIFEST.json"), "w"), indent=1)
