#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit enumeration of all operation sequences x inputs on the real code, each step compared with a reference model"
NOTE = {
 "C01": (SEQ, "Every reported match is recomputed by a naive one-pattern-at-a-time model. Exhaustive for the listed pools of patterns, sequence lengths and message lengths, plus ladders over sizes; both matchers."),
 "C02": (SEQ, "Every message of the bounds that the model matches with some stored pattern must be matched. Same spaces as C01."),
 "C03": (SEQ, "The model's precedence rule picks the winner among the matching patterns; same spaces as C01, restricted to what the pattern language can write."),
 "C04": ("explicit enumeration of all operation sequences x inputs, the two implementations run in lock step", "No model: trie and suffix array must answer alike on every sequence and message of the bounds."),
 "C05": (SEQ, "Patterns and messages over 1- to 4-byte characters sharing lead bytes, each scalar value, log level off and trace, long runs on small stacks; panics, hangs and process death are violations."),
 "C06": ("explicit enumeration of parser configurations x texts against the direct definition", "All sets/limits/texts of the bounds, every Unicode scalar, run lengths to a bound, reconfiguration sequences."),
 "C07": ("explicit enumeration of parser configurations x texts and of pattern texts against the direct definition", "All end strings and texts of the bounds, every scalar, positions in long texts, GREEDY in all pattern texts up to a number of items."),
 "C08": ("explicit enumeration of all texts of the grammar up to a size against an independent recogniser", "The recogniser in mc/src/gram.rs is trusted; it was written from the published grammar."),
 "C09": ("explicit enumeration of all short texts and all few-edit mutations against an independent recogniser", "As C08; the admissible error offset is an interval, not one value."),
 "C10": ("explicit enumeration of all literal texts up to a length in all positions, run through both matchers", "Texts that contain the escape sequence itself are excluded, as the statement says."),
 "C11": ("explicit enumeration of all interleavings of add, parse, clone on several matchers against a model", "Depth-bounded; the model is the list of patterns added to each matcher."),
 "C12": ("explicit enumeration of documents (present/absent/wrong fields at every level) against a reference meaning", "Null values and duplicate keys are outside the statement."),
 "C13": ("explicit enumeration of documents in several JSON and YAML spellings, compared with each other", "Differential; spellings come from the writer in mc/src/doc.rs."),
 "C14": ("exhaustive fault enumeration at the system-call seam (every read position, short-read and interruption sequence)", "read and open are interposed inside the check's process; errors count only when delivered."),
 "C15": ("explicit enumeration of pattern sequences with test messages against a reference model", "The reference matcher is the real one, filled one pattern at a time; the judgement of expectations is the model's."),
 "C16": ("explicit enumeration of failing pattern sequences; every field of the reported error compared", "Where several expectations fail at once any of them may be reported."),
 "C17": ("explicit enumeration of sources mixing good, failing and unreadable items, with log capture", "Log records of level error are captured through the log facade."),
 "C18": ("explicit enumeration of all pairs of parser configurations and construction paths", "Hash collisions between different configurations would be reported; none exists in the bound."),
 "C19": ("explicit enumeration of all push/remove sequences against a sorted-list model", "All sequences to a depth, four element types, ladders over sizes."),
 "C20": ("explicit enumeration of string pairs against the direct definition", "All pairs up to a length over alphabets with shared lead bytes; every scalar against its bit neighbours."),
 "C21": ("explicit enumeration of all insertion sequences of literals, all lookups, against a set model", "All sequences of the pools, every text up to one character longer than the literals."),
 "C22": (SEQ, "Every pattern carries its own metadata; all sequences of the bounds, added through the API and loaded from files."),
 "C25": ("explicit enumeration of pattern sequences x 22 ways to build the matcher x messages, compared with each other", "Differential: the reference is the way through add_pattern, which C01 to C03 judge."),
 "C26": ("explicit enumeration of operation sequences, each repeated up to a bound, with a counting allocator", "Live bytes per thread are counted exactly; growth above 4 KiB over the repetitions is a violation."),
 "C27": ("exhaustive fault and input enumeration: every error code at open and read, files damaged at every character; every error compared", "Places of syntax errors come from the JSON and YAML libraries run on the same text."),
 "C28": ("stateless exploration of the real code: all schedules of two threads with one preemption at any instruction (breakpoints in a process per schedule; single-stepping under the processor's trap flag), and all points at which the library calls out x what runs there", "Reference is each operation alone. Preemption bound 1 at any instruction, 3-4 next to instructions that write static memory (plus the schedule with the second operation before every instruction), sequentially consistent; instructions of libc are no points of choice."),
 "C23": ("explicit enumeration of operation sequences with instrumented parsers that count and check each call", "Counts attempts per stored parser on every message of the bounds."),
}
checks = []
for p in sorted(NOTE):
    t, n = NOTE[p]
    checks.append({"property": p, "quick_cmd": "bash run.sh %s quick" % p, "thorough_cmd": "bash run.sh %s thorough" % p,
                   "technique": "model checking: " + t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "bash run.sh all quick", "checks": checks,
     "not_applicable": [{"property": "C24", "reason": "utils/pdb2adb is a Perl script whose modules (XML and JSON) are not installed here and cannot be fetched: no execution of it can be explored, and the patterndb semantics it has to preserve (syslog-ng) are not available either."}],
     "notes": "No hooks in /repo: everything is driven through the crate's public API and the system-call seam of the check's own process."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
