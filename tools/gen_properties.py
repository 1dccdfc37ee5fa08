#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

TRIE = ["src/matcher/trie/node/mod.rs", "src/matcher/trie/node/literal.rs", "src/matcher/trie/node/parser.rs",
        "src/matcher/trie/node/interface.rs"]
SA = ["src/matcher/suffix_array/impls.rs", "src/matcher/suffix_array/interface.rs"]
OBS_PARSE = ["Matcher::parse", "MatchResult::pattern", "MatchResult::values"]

prop("C01", "Every reported match is genuine",
 "Every parse call returns normally, and whenever it reports a match the reported pattern is one that was added and its literals and parsers, taken in order, consume the message exactly, from the first to the last byte. "
 "The reported key-value pairs are exactly the names of that pattern's named parsers, each with the substring that parser consumed (the leftmost one when a name repeats). "
 "This holds for the trie matcher and for the suffix-array matcher, whatever else is stored in them.",
 ["inputs", "histories"], "all sets of patterns added in any order, all messages",
 "The unit tests check about 15 hand-written pattern sets with one or two messages each; soundness must hold for every combination of overlapping literals, splits and parser chains and for every message, including ones that stop inside a literal.",
 TRIE + SA + ["src/matcher/result.rs", "src/utils/common_prefix.rs", "src/parsers/set.rs", "src/parsers/greedy.rs"],
 [("literal lookup and descent", "src/matcher/trie/node/mod.rs: parse, search*"), ("end-of-message test", "src/matcher/trie/node/parser.rs: push_last_kvpair"),
  ("literal entry selection", "src/matcher/suffix_array/impls.rs: Matcher::parse"), ("value collection", "src/matcher/result.rs: MatchResult::insert")],
 [("literal_children / literal_entries", "literals reachable at a node", TRIE[0]), ("parser_children / parser_entries", "parsers tried at a node", SA[0])],
 OBS_PARSE)

prop("C02", "A message that some stored pattern matches is never missed",
 "If at least one added pattern, taken on its own, consumes the whole message, then parse reports a match. "
 "Adding further patterns never makes a message unparseable that was parseable before, whatever prefixes, literals or parsers the patterns share and in whatever order they were added. "
 "This holds for both matcher implementations.",
 ["inputs", "histories"], "all sequences of added patterns, all messages matched by at least one of them",
 "Tests look at most at four patterns in one insertion order and query only the message of the last one; lost subtrees and shadowed branches need a second pattern on the same prefix and a query for the first one.",
 TRIE + SA,
 [("insertion keeps existing children", "interface.rs: Entry::insert"), ("literal split keeps both halves", "src/matcher/trie/node/literal.rs: split"),
  ("untried alternatives are retried", "parse_with_parsers")],
 [("node/child", "subtree below an entry", "LiteralNode, ParserNode, LiteralE, ParserE")], OBS_PARSE)

prop("C03", "Which of several matching patterns wins follows fixed precedence rules",
 "When several added patterns match the message, the winner is decided at the first place where their token sequences differ: a pattern that ends there beats one that continues, a literal beats a parser, a longer literal beats a shorter one, and of two parsers the one that was first added at that place wins. "
 "Adding a pattern with the same token sequence again replaces the earlier one. "
 "Nothing else, in particular not the order in which literals were added, influences the outcome, in either matcher.",
 ["inputs", "histories"], "all sequences of added patterns (as the pattern language writes them: at least one token, no two literals side by side) and all messages matched by two or more of them",
 "One test checks that a literal beats a parser for one message; the rules have to hold for every overlap and every insertion order.",
 TRIE + SA + ["src/utils/sortedvec.rs"],
 [("literals before parsers", "SuffixTree::parse, SuffixTable::parse"), ("parsers in insertion order", "insert_parser pushes at the end"), ("replacement", "Entry::set_pattern")],
 [("pattern", "pattern stored at an entry", "LiteralNode, ParserNode, LiteralE, ParserE")], OBS_PARSE)

prop("C04", "The two matcher implementations are interchangeable",
 "For the same sequence of added patterns and the same message, the trie matcher and the suffix-array matcher give the same answer: both report no match, or both report the same pattern with the same key-value pairs.",
 ["inputs", "histories", "configurations"], "all sequences of added patterns (as the pattern language writes them: at least one token, no two literals side by side), all messages, both matcher suites",
 "No test runs the two implementations on the same data.",
 TRIE + SA, [("trie matcher", "src/matcher/trie/matcher.rs"), ("suffix-array matcher", "src/matcher/suffix_array/impls.rs")], (), OBS_PARSE)

prop("C05", "Building and matching are total on arbitrary UTF-8 text",
 "Adding any pattern and parsing any message returns normally, without panic, endless loop or stack exhaustion, for every UTF-8 text: multi-byte characters that share leading bytes, control characters, empty messages, messages cut at any character, long runs. Stack use does not grow with the length of the message. "
 "A multi-byte character is never split: a literal or value boundary always falls on a character boundary, and a message differing in a single character from the literal text of the only pattern does not match. "
 "The answer does not depend on the log level.",
 ["inputs"], "all UTF-8 messages and pattern texts over alphabets containing 1- to 4-byte characters with shared lead bytes, with logging off and at trace level",
 "Two tests use a multi-byte character, both inside a literal following a parser; the first byte of a node's literal and the character set of a parser are never multi-byte in the tests.",
 TRIE + SA + ["src/utils/common_prefix.rs", "src/parsers/set.rs", "src/parsers/greedy.rs"],
 [("character-boundary aware prefix", "src/utils/common_prefix.rs"), ("first-character ordering", "src/matcher/trie/node/literal.rs: cmp_str"), ("set membership", "src/parsers/set.rs")],
 (), OBS_PARSE)

prop("C06", "SET and INT consume the longest run and enforce their length limits",
 "A SET parser consumes the longest leading run of the text that consists only of characters of its set and succeeds exactly when that run is non-empty and its length in characters is at least the minimum and at most the maximum (when given); it then reports exactly that run. "
 "INT behaves as SET over the ASCII digits 0-9 and nothing else. "
 "A parser's answer depends only on its configuration and the text.",
 ["inputs", "configurations"], "all character sets, length limits and texts",
 "Eight tests use one 11-character text and four limit settings.",
 ["src/parsers/set.rs", "src/parsers/int.rs", "src/parsers/has_length_constraint.rs", "src/parsers/base.rs", "src/matcher/trie/parser_factory.rs"],
 [("run length", "SetParser::calculate_match_length"), ("limits", "HasLengthConstraint::is_match_length_ok"), ("configuration from pattern text", "parser_factory.rs: set_optional_params")],
 [("character_set, min_length, max_length", "parser configuration", "SetParser")], ["Parser::parse", "ParseResult::value", "ParseResult::parser"])

prop("C07", "GREEDY stops at the first occurrence of its end string, or takes the rest",
 "A GREEDY parser with an end string consumes exactly the text before the first occurrence of that end string and fails when it does not occur; without an end string it consumes the whole remaining text, even when that is empty. "
 "In a pattern, the end string of a GREEDY parser is the literal that directly follows it, and it has none when a parser or the end of the pattern follows.",
 ["inputs", "configurations"], "all end strings and texts, all patterns containing GREEDY",
 "Two tests with one end string and two texts; overlapping, repeated and multi-byte end strings are not reached.",
 ["src/parsers/greedy.rs", "src/grammar/parser/pattern_parser.rs", "src/matcher/trie/parser_factory.rs"],
 [("search for the end string", "GreedyParser::parse"), ("end string from the following literal", "parse_parser_GREEDY")],
 [("end_string", "stop condition", "GreedyParser")], ["Parser::parse", "grammar::parser::pattern"])

prop("C08", "Every well-formed pattern text compiles to exactly the tokens it denotes",
 "A pattern text that follows the published pattern grammar compiles, and the result is exactly the denoted sequence: one literal per maximal stretch of literal text, one parser per %{...} item, in the written order, each with the written type, name, character set and length limits. "
 "Omitted names, argument lists and limits stay unset, of a limit given twice the last one counts, and blanks after commas are insignificant. "
 "A parser factory of the user's own is called once per item with exactly the written set, name, limits and end string.",
 ["inputs", "programs"], "all texts of the pattern grammar",
 "About 20 hand-written texts are tested; combinations of optional parts and neighbouring items are not.",
 ["src/grammar/parser/pattern_parser.rs", "src/grammar/parser/mod.rs", "src/grammar/mod.rs", "src/matcher/trie/parser_factory.rs", "src/utils/mod.rs"],
 [("PEG rules", "src/grammar/parser/pattern.rustpeg (source), pattern_parser.rs (generated)"), ("flattening", "utils::flatten_vec"), ("factory", "ParserFactory")],
 (), ["grammar::parser::pattern", "grammar::parser::pattern_with_factory"])

prop("C09", "Every malformed pattern text is rejected with a correct error position",
 "Any string that is not in the pattern grammar is rejected with an error value, never with a panic and never by compiling something else, including truncated items, unknown parser types, bad names and numbers that do not fit. "
 "The error's offset lies within the text on a character boundary: not before the item (the literal or the %{...}) at fault and not beyond the first character that makes the text invalid (for a number that does not fit: the end of that number). "
 "Its line and column are the ones of that offset, counted from 1, the column in bytes, and its printed form shows both. "
 "It lists what is expected there: never nothing, every word of the language it lists can indeed follow the text before the offset, none of ( , : = } that can is left out when the offset is the first bad place, and the printed form names all of it.",
 ["inputs"], "all strings, in particular all few-edit mutations of well-formed patterns",
 "Eight malformed texts are tested and only for being rejected.",
 ["src/grammar/parser/pattern_parser.rs", "src/matcher/pattern/deser.rs"],
 [("whole input must be consumed", "pattern_parser.rs: pattern"), ("furthest failure", "ParseState::mark_failure"), ("line and column", "pos_to_line")],
 (), ["grammar::parser::pattern", "ParseError"])

prop("C10", "Any literal text can be written in a pattern and matches only itself",
 "Writing any text as a pattern with each %{ spelled \\%\\{ gives a pattern that matches exactly that text and nothing else; the same holds when the text stands before, between or after parsers, including directly after a GREEDY parser.",
 ["inputs", "programs"], "all literal texts (not containing the escape sequence itself) in every position of a pattern, all messages",
 "One test escapes one %{ in one literal and inspects the tokens.",
 ["src/grammar/mod.rs", "src/grammar/parser/pattern_parser.rs", "src/parsers/greedy.rs"],
 [("unescaping", "grammar::unescape_literal"), ("literal rule", "parse_literal, parse_piece_literal, parse_parser_GREEDY")], (),
 ["grammar::parser::pattern", "Matcher::parse"])

prop("C11", "Parsing has no side effects and clones are independent",
 "The answer to a parse call depends only on the sequence of patterns added to that matcher before the call and on the message: not on earlier parse calls, on other matchers, or on whether the matcher was obtained by cloning. "
 "A clone answers as the original did when it was cloned, and adding patterns to either never changes the other. "
 "Likewise a compiled pattern obtained from a builder does not change when the builder is used further.",
 ["histories"], "all interleavings of add, parse, clone and boxed clone on several matchers",
 "No test clones a matcher or parses, adds and parses again.",
 TRIE + SA + ["src/matcher/mod.rs", "src/matcher/compiled_pattern.rs", "src/parsers/mod.rs"],
 [("immutable parse", "Matcher::parse takes &self"), ("deep clone", "boxed_clone of matchers and parsers, Clone of ParserNode/ParserE/TokenType")], (),
 OBS_PARSE + ["Matcher::boxed_clone", "Clone"])

prop("C12", "Pattern definitions are read completely and strictly",
 "A pattern definition, or a pattern file, is accepted exactly when its required fields are present and every present field has the documented type and a valid content (uuid, pattern text, test messages); unknown fields are rejected. "
 "An accepted definition carries exactly the given name, uuid, compiled pattern, additional values, tags and test messages, and absent optional fields stay absent. "
 "The error for a missing required field names that field.",
 ["inputs"], "all documents built from present/absent/wrongly-typed/invalid fields at every level",
 "About 15 documents are tested, most with one defect each.",
 ["src/matcher/pattern/deser.rs", "src/matcher/pattern/file/deser.rs", "src/matcher/pattern/testmessage/deser.rs", "src/matcher/pattern/pattern.rs"],
 [("field visitors", "deser.rs files"), ("pattern compilation", "deser.rs: PatternVisitor::visit_map")], (),
 ["Pattern::from_json", "PatternLoader::load_file", "Pattern accessors", "TestMessage accessors"])

prop("C13", "JSON and YAML pattern files mean the same",
 "The same document written as JSON and as YAML (block or flow style) is accepted or rejected alike, and when accepted yields the same list of patterns in the same order with the same fields, and matchers that give the same answers.",
 ["inputs", "configurations"], "all documents of the bounded document space in both formats",
 "One YAML file is loaded in the tests and only its number of patterns is checked.",
 ["src/matcher/pattern_loader.rs", "src/matcher/pattern/deser.rs", "src/matcher/pattern/file/deser.rs", "src/matcher/pattern/testmessage/deser.rs"],
 [("format dispatch", "PatternLoader::load_file"), ("shared visitors", "deser.rs files")], (), ["PatternLoader::load_file", "PatternLoader::from_file"])

prop("C14", "Loading a file is all or nothing, whatever the file system does",
 "Loading a pattern file gives the patterns of the complete file content or an error: a read error at any point, a missing or unreadable file, a directory, content that is not UTF-8 or an unsupported extension always yields an error, never a matcher built from part of the file. "
 "Short and interrupted reads do not change the outcome. "
 "The file extension alone selects the format (json; yaml, yml, YAML, YML), anything else is reported as an unsupported extension.",
 ["fault_sequences", "inputs"], "all files of the corpus, every position of a read error, every short-read and interruption pattern within the bound, all file names of the bound",
 "Tests open files that exist or not; no read ever fails.",
 ["src/matcher/pattern_loader.rs", "src/matcher/pattern_source/error.rs"],
 [("reading", "PatternLoader::read"), ("format dispatch", "PatternLoader::load_file")], (), ["PatternLoader::load_file", "PatternLoader::from_file", "BuildError"])

prop("C15", "A load succeeds exactly when every test message passes",
 "Building a matcher from a source of patterns succeeds exactly when every item is readable and every test message of every pattern, checked when its pattern is added, matches that very pattern, carries every expected tag among the pattern's tags and every expected key with the expected value, a parsed value taking precedence over the pattern's additional value of the same key. "
 "Tags and values that are not expected are ignored. "
 "On success the matcher answers as if the patterns had been added one by one in source order (pattern files are taken from the last entry to the first); on the first failure loading stops with an error and takes nothing more from the source.",
 ["inputs", "histories"], "all sequences of patterns with test messages, expected values and tags, both matchers",
 "Seven files are tested, each with at most one failing expectation.",
 ["src/matcher/pattern_source/mod.rs", "src/matcher/pattern/testmessage/message.rs", "src/matcher/pattern/file/iter.rs", "src/matcher/pattern_loader.rs", "src/matcher/pattern/pattern.rs"],
 [("validation", "FromPatternSource::check_pattern, check_test_messages"), ("expectations", "TestMessage::test_result"), ("order", "file/iter.rs")],
 [("test_messages", "messages to validate", "Pattern")], ["FromPatternSource::from_source", "PatternLoader::from_file"])

prop("C16", "A failed validation names the pattern, message and expectation that failed",
 "When building a matcher fails because of a test message, the error is of the kind that really applies (no match, matched another pattern, wrong tags, missing key, wrong value) and carries the uuid of the pattern under test and the actual message, key, expected and found values or tags. "
 "Its printed form contains those data. "
 "An unreadable item is reported by passing on that item's own error.",
 ["inputs"], "all failing sequences of patterns with test messages within the bound",
 "The tests only check that some error is returned.",
 ["src/matcher/pattern/testmessage/error.rs", "src/matcher/pattern/testmessage/message.rs", "src/matcher/pattern_source/mod.rs", "src/matcher/pattern_source/error.rs"],
 [("error construction", "testmessage::Error::*"), ("display", "fmt::Display for Error, BuildError")], (), ["BuildError", "testmessage::Error", "Display"])

prop("C17", "Lenient loading keeps every readable pattern and reports every failure",
 "Building a matcher while ignoring errors always yields a matcher, which answers exactly as one to which all readable patterns of the source were added in source order, whether or not their test messages passed. "
 "For every unreadable item and every pattern with a failing test message an error is logged, and nothing is logged as an error for patterns that pass. "
 "A file that cannot be read at all still yields an error.",
 ["inputs", "histories", "fault_sequences"], "all sources mixing good patterns, patterns with failing test messages and unreadable items",
 "No test calls the lenient entry points.",
 ["src/matcher/pattern_source/mod.rs", "src/matcher/pattern_loader.rs"],
 [("loop that continues after an error", "FromPatternSource::from_source_ignore_errors"), ("file variant", "PatternLoader::from_file_ignore_errors")], (),
 ["from_source_ignore_errors", "from_file_ignore_errors", "log records"])

prop("C18", "Two parsers count as the same exactly when kind, name and settings agree",
 "Two parser instances have the same identity hash exactly when they are of the same kind and agree in name, character set, length limits and end string, no matter how they were constructed, configured or cloned, and the hash is stable from call to call. "
 "Consequently patterns whose parsers differ in any of these stay distinct inside a matcher and report under their own names, while equal ones share one place.",
 ["configurations", "histories"], "all pairs of parser configurations, all construction paths",
 "One test compares two SET parsers with different sets.",
 ["src/parsers/set.rs", "src/parsers/int.rs", "src/parsers/greedy.rs", "src/parsers/base.rs", "src/matcher/trie/node/mod.rs", "src/matcher/suffix_array/impls.rs"],
 [("identity", "ObjectSafeHash::hash_os"), ("merge", "lookup_parser / insert_parser")], (), ["ObjectSafeHash::hash_os", "Matcher::parse"])

prop("C19", "The sorted vector stays sorted and finds exactly what it holds",
 "After any sequence of insertions and removals the sorted vector holds exactly the inserted and not removed elements in ascending order, with the right length and emptiness. "
 "A search finds an element equal to the needle exactly when there is one, and a search by comparison reports either such a position or the position where the needle would have to be inserted.",
 ["histories"], "all sequences of push and remove, all needles",
 "Six tests with five fixed strings.",
 ["src/utils/sortedvec.rs"], [("sorting on push", "SortedVec::push"), ("binary search", "SortedVec::binary_search, binary_search_by")],
 [("array", "the elements", "SortedVec")], ["SortedVec API"])

prop("C20", "Common-prefix helpers are exact and respect character boundaries",
 "The common prefix length of two strings is the byte length of their longest common sequence of leading characters, symmetric in its arguments, and is reported as absent exactly when it is zero. "
 "Cutting a string at a character boundary from the left and from the right gives the two complementary parts.",
 ["inputs"], "all pairs of strings over an alphabet with multi-byte characters that share lead bytes",
 "Five tests with fixed strings.",
 ["src/utils/common_prefix.rs"], [("byte comparison with boundary tracking", "common_prefix_len")], (), ["CommonPrefix API"])

prop("C21", "The trie's literal index holds exactly the inserted literals",
 "After inserting any sequence of non-empty literals into a trie, looking up a text succeeds exactly when it was inserted, in whatever order the literals came and however they overlap; looking up never finds a mere prefix or an extension of a literal. "
 "A failed lookup reports how many bytes of the text were left unmatched: never more than the text has, and what comes before them is empty or the beginning of an inserted literal. "
 "Inserting a literal again changes nothing, and what was stored at a literal stays with it. "
 "The same holds for literals of a trie that was put below a literal: they are found behind it.",
 ["histories", "inputs"], "all insertion sequences of literals over a small alphabet including multi-byte characters, all looked-up texts",
 "Four tests with two or three literals.",
 ["src/matcher/trie/node/mod.rs", "src/matcher/trie/node/literal.rs", "src/utils/sortedvec.rs"],
 [("search", "search_prefix_is_found*"), ("split", "LiteralNode::split"), ("tail insertion", "insert_literal_tail")],
 [("has_value", "literal ends at this node", "LiteralNode")], ["SuffixTree::insert_literal", "SuffixTree::lookup_literal"])

prop("C22", "A match carries its pattern's own metadata",
 "The pattern reported with a match has exactly the uuid, name, tags and additional values with which it was added or loaded, however many other patterns share its prefixes and however the storage was rearranged by later additions. "
 "Distinct patterns never exchange or merge their metadata, and the additional values never appear among the parsed key-value pairs.",
 ["histories", "inputs"], "all sequences of added or loaded patterns with distinct metadata, all matching messages",
 "The tests look at values of single patterns; metadata after rearrangement is not looked at.",
 TRIE + SA + ["src/matcher/pattern/pattern.rs", "src/matcher/result.rs"],
 [("pattern moved on split", "LiteralNode::split"), ("pattern stored at entry", "Entry::set_pattern"), ("accessors", "Pattern, MatchResult")], (), OBS_PARSE + ["Pattern accessors"])

prop("C23", "Matching never repeats work on a message",
 "While parsing one message, each parser place stored in a matcher is tried at most once (patterns with equal beginnings share the places of that beginning), so the number of parser attempts is bounded by the number of stored parsers, whatever the message; there is no catastrophic backtracking. "
 "A parser is only ever given a suffix of the message, and user-supplied parser types are treated as the built-in ones.",
 ["inputs", "histories"], "all sequences of added patterns made of instrumented parsers, all messages",
 "Tests never count attempts.",
 TRIE + SA, [("deterministic descent", "parse, parse_with_parsers"), ("parser trait", "src/parsers/mod.rs: Parser")], (), ["Parser::parse calls"])

prop("C24", "pdb2adb converts patterndb files to equivalent actiondb files",
 "Every patterndb rule converted with the pdb2adb utility gives an actiondb pattern that matches the same messages and carries the same values, tags and examples.",
 ["inputs"], "all patterndb files",
 "There are no tests for the script.",
 ["utils/pdb2adb"], [("conversion", "utils/pdb2adb")], (), ["utils/pdb2adb output"])

prop("C25", "Every way to build a matcher from the same patterns gives the same answers",
 "The same patterns in the same order give the same answers to every message, with the same parsed values and the same name, tags and additional values of the reported pattern, whichever way they got into the matcher: pattern text or compiled pattern builder, added one by one or built from a source, strictly or leniently, definitions read from JSON, pattern files in JSON or YAML (from the last entry to the first), clones of the patterns or of the matcher. "
 "Parsing in between changes nothing, and test messages, passing or (leniently) failing, leave no trace in the matcher.",
 ["configurations", "histories", "inputs"], "all sequences of patterns of the bounds x all public ways to a matcher x all messages",
 "Each test builds its matcher in one way; nothing compares the ways with each other.",
 ["src/matcher/pattern_source/mod.rs", "src/matcher/pattern_loader.rs", "src/matcher/pattern/file/iter.rs", "src/matcher/pattern/deser.rs", "src/matcher/compiled_pattern.rs", "src/matcher/trie/parser_factory.rs", "src/matcher/pattern/pattern.rs"],
 [("sources", "FromPatternSource::from_source, from_source_ignore_errors"), ("files", "PatternLoader::from_file, PatternFile::into_iter"), ("pattern texts", "grammar::parser::pattern, pattern_with_factory"), ("clones", "Clone of Pattern, TokenType and the matchers, boxed_clone")],
 (), OBS_PARSE + ["MatcherSuite", "PatternLoader", "FromPatternSource", "CompiledPatternBuilder"])

prop("C26", "Using the library accumulates neither memory nor open files",
 "Parsing any number of messages leaves no memory behind. "
 "Adding a pattern with a token sequence that is already stored replaces the stored pattern without making the matcher grow. "
 "Dropping a matcher or a clone, compiling pattern texts, and building or loading a matcher, successfully or not, give back everything they took; loading leaves no file open.",
 ["histories", "inputs"], "all sequences of added patterns of the bounds, all numbers of repetitions up to the bound",
 "Tests run every operation once and never look at memory or descriptors.",
 TRIE + SA + ["src/matcher/pattern_loader.rs", "src/matcher/pattern_source/mod.rs", "src/grammar/parser/pattern_parser.rs"],
 [("lookup before insertion", "insert_literal, insert_parser"), ("replacement", "Entry::set_pattern"), ("parse without state", "Matcher::parse")], (),
 ["allocator of the process", "/proc/self/fd"])

prop("C27", "A failed load tells which stage failed, why and where",
 "When loading a pattern file fails, the error is of the kind of the stage that failed first: unsupported extension; I/O error with the system's own error code (missing files, every error of open and read; content that is not UTF-8 is invalid data); JSON error for json files and YAML error for yaml files (malformed text, wrong or missing fields, malformed pattern texts); test message error (strict loading only). "
 "Its printed form and description are those of the underlying error, and a syntax error names its line and column in the file. "
 "For a malformed pattern text an error is logged that names the uuid and the name of that definition and the line and column in the pattern text.",
 ["inputs", "crash_points"], "all files of the bounds, every error code at every stage",
 "Tests check a few kinds of errors and never the place, the code or the log.",
 ["src/matcher/pattern_loader.rs", "src/matcher/pattern_source/error.rs", "src/matcher/pattern/deser.rs", "src/matcher/pattern/file/deser.rs"],
 [("stages", "PatternLoader::load_file, read"), ("kinds and printing", "BuildError: From, Display, Error"), ("log of malformed pattern texts", "src/matcher/pattern/deser.rs: visit_map")], (),
 ["BuildError", "log records of level error", "open and read system calls"])

prop("C28", "Operations do not notice what runs in between or beside them",
 "Operations of two threads on matchers, patterns and texts of their own give the answers they give alone, however the threads interleave. "
 "At every point at which the library calls out to code of the user (parsers, parser factories, pattern sources, matchers, matcher factories, loggers) that code may use the library itself, on other objects or, while it is only being read, on the very matcher in use, or wait for another thread that does: every answer is the same as alone and nobody waits forever. "
 "A panic of such code reaches the caller and leaves every other object, and a matcher that was only being read, usable as before.",
 ["schedules", "histories"], "all schedules of two operations with one preemption at any instruction, and with several next to instructions that write static memory; all points at which the library calls out, all operations running there",
 "The tests run one operation at a time and no user code of theirs calls back.",
 ["src/matcher/trie/node/mod.rs", "src/matcher/suffix_array/impls.rs", "src/matcher/suffix_array/interface.rs", "src/matcher/pattern_source/mod.rs", "src/matcher/pattern/deser.rs", "src/grammar/parser/mod.rs", "src/parsers/mod.rs"],
 [("no shared state", "no statics but constants in src/"), ("shared references only while reading", "Matcher::parse, Matcher::boxed_clone")], (),
 ["Matcher::parse", "FromPatternSource", "grammar::parser::pattern_with_factory", "Pattern::from_json", "Parser", "log records"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
