#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A compiled pattern accepts exactly the language its syntax denotes",
 "For every well-formed pattern, in either text encoding and with any combination of the optional features (case-insensitivity, and/not operators, similar-glyph gluing), the compiled recogniser accepts a text, with or without begin/end marks fed, exactly when the text belongs to the language that the pattern's syntax denotes. This covers literals and escapes, \\x code points, dot, character sets and ranges and their negation, character classes, alternation, grouping, every form of repetition count, the anchors, and empty or unrepresentable parts.",
 ["programs", "inputs", "configurations"],
 "for every syntactically valid pattern, every encoding/feature set and every text over the 256 bytes plus the begin and end marks",
 "The unit tests try about a hundred hand-written patterns on two or three short texts each; operators interact (precedence, nesting, repetition of anchors and of nullable parts, multi-byte ranges), and no sample of strings separates two different languages.",
 ["pire/re_parser.y", "pire/re_lexer.cpp", "pire/classes.cpp", "pire/encoding.cpp", "pire/read_unicode.cpp", "pire/extra/glyphs.cpp", "pire/fsm.cpp"],
 [("grammar actions building the automaton", "pire/re_parser.y"), ("tokenising and feature pipeline", "pire/re_lexer.cpp: Lexer::Lex, CharacterRangeReader, RepetitionCountReader"), ("code point to bytes", "pire/encoding.cpp: ToLocal, AppendDot")],
 ["Lexer(...).Parse().Compile<Scanner>(), then Runner/Step/Final"])

prop("C02", "Any pattern text either compiles or is rejected with a library error",
 "For every sequence of code points given as a pattern, with any features on, parsing terminates and either yields a usable automaton or throws the library's error exception; it never crashes, reads or writes out of bounds, overflows, leaks, or loops without end. Malformed syntax (unbalanced brackets, dangling or malformed repetition counts, bad hex escapes, trailing backslash, out-of-range or reversed counts) is rejected rather than silently given another meaning, and a rejected pattern leaves later parses unaffected.",
 ["inputs", "histories"],
 "for every code point sequence, valid or not, every feature set, and every sequence of parses good and bad in one process",
 "Tests reject a dozen fixed bad patterns; malformed input is an open set, and leaks, overflows and state carried between parses are not observed by assertions on return values.",
 ["pire/re_lexer.cpp", "pire/re_lexer.h", "pire/re_parser.y", "pire/read_unicode.cpp", "pire/any.h"],
 [("error path of the lexer and the parser", "pire/re_parser.y: yylex, yyerror, yre_parse"), ("bounds checks on counts and hex", "pire/re_lexer.cpp: RepetitionCountReader; pire/read_unicode.cpp")],
 ["Lexer(...).Parse(): value or Pire::Error, under AddressSanitizer, LeakSanitizer and UBSan"])

prop("C03", "All scanner kinds accept the same language as the automaton they came from",
 "For every automaton, built from patterns or state by state, every scanner kind compiled from it (relocatable or not, with or without shortcuts, simple, slow) accepts exactly the automaton's language, so all kinds agree on every text; a half-final scanner compiled from a search (a surrounded automaton), or from an automaton some of whose accepted texts can be continued to rejected ones, lists the pattern after a text and the end mark exactly when the automaton accepts that text followed by the end mark. Each scanner's reported sizes are consistent with it: state indices lie within the state count, each reachable state has one stable index, and the default-constructed scanner is empty and accepts nothing.",
 ["programs", "inputs", "configurations"],
 "for every finite automaton (including nondeterministic ones with empty moves, unreachable and dead parts, no or many final states, any number of letter classes) and every text",
 "The tests' macro runs a few scanner kinds on the same short strings; agreement on all texts needs all reachable scanner states to be visited, and automata built by hand (epsilon loops, hundreds of letter classes) are not tried at all.",
 ["pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/slow.h", "pire/scanners/half_final.h", "pire/fsm.h", "pire/fsm.cpp"],
 [("scanner construction", "pire/fsm.h: BuildScanner"), ("per-kind transition tables", "pire/scanners/*.h: Init, SetJump, Next")],
 ["Initialize/Next/TakeAction/Final/StateIndex/Size of each compiled scanner"])

prop("C04", "Running a scanner over a buffer equals stepping it byte by byte",
 "For every scanner kind, running it over a memory range leaves it in the same state as feeding the bytes one at a time, whatever the range's address, alignment, length and content, however the text is split into consecutive ranges, and whether one scanner or a pair is run. Bytes outside the range never influence the result, and a run touches no memory page that the range does not touch.",
 ["inputs", "configurations", "histories"],
 "for every scanner, starting state, buffer alignment, length, content and partition of the text into runs, with either vector or scalar instruction sets",
 "Tests run short literals at whatever alignment the compiler gave them; head/tail words, vector skipping and the pair runner only differ for particular alignments, lengths of dozens of bytes and byte positions.",
 ["pire/run.h", "pire/scanners/multi.h", "pire/scanners/pair.h", "pire/scanners/simple.h", "pire/platform.h"],
 [("word-at-a-time run", "pire/run.h: DoRun, RunChunk, SafeRunChunk"), ("shortcut masks and skipping", "pire/scanners/multi.h: ExitMasks, AlignedRunner::RunAligned"), ("pair runner", "pire/scanners/pair.h")],
 ["Run / RunHelper::Run / pair Run on guarded buffers; StateIndex afterwards"])

prop("C05", "Automaton operators obey the laws of the languages they denote",
 "Concatenation, alternation, conjunction, complement, iteration, n-fold repetition, reversal, prefix and suffix closure, surrounding with anything, and appending letters, strings, dots and marks each produce an automaton whose language is exactly the corresponding operation on the operand languages. This holds for every way of combining them (operands that accept the empty text, nothing or everything, alternatives of alternatives, an automaton combined with itself), and operands that are passed by reference are left unchanged.",
 ["programs", "inputs"],
 "for every expression over the operators applied to any operand automata, in-place and copying forms alike",
 "Tests build fewer than twenty automata by hand; wrong results appear only for particular operand shapes (nullable right operands, cyclic initial states, nested alternatives) that random composition has to reach, and need comparison with the whole language.",
 ["pire/fsm.cpp", "pire/fsm.h"],
 [("operators on automata", "pire/fsm.cpp: operator+=, |=, &=, Iterate, Complement, operator*, Reverse, MakePrefix, MakeSuffix, Surround, AppendStrings"), ("import of a foreign transition table", "pire/fsm.cpp: Import")],
 ["language of the resulting Fsm through a compiled scanner"])

prop("C06", "Determinising, minimising and pruning preserve the language and do their job",
 "Removing empty moves, removing dead ends, determinising, minimising and canonising never change the language of an automaton. After determinising there is at most one successor per state and letter and no empty move; after canonising, the number of states is exactly the number of distinguishable continuations of the language; the reported dead states are exactly those not on a path from the start to acceptance; and when a size limit is given, determinising either stays within it (the start state is not counted) or reports failure and leaves the automaton's language as it was.",
 ["programs", "inputs", "configurations"],
 "for every automaton and every size limit, and any order of applying these transformations",
 "Tests canonise a handful of small automata and look at acceptance of a few strings; a lost or duplicated state, a merge of two inequivalent states or a missed merge shows only in states few strings reach.",
 ["pire/fsm.cpp", "pire/determine.h", "pire/minimize.h", "pire/partition.h"],
 [("subset construction", "pire/determine.h; pire/fsm.cpp: FsmDetermineTask"), ("partition refinement", "pire/minimize.h; pire/fsm.cpp: FsmMinimizeTask"), ("letter classes", "pire/partition.h; pire/fsm.cpp: Sparse, Unsparse"), ("dead state search", "pire/fsm.cpp: DeadStates")],
 ["Fsm::Size/Destinations/Finals/DeadStates and the language, before and after"])

prop("C07", "Gluing scanners yields exactly the union with correct pattern numbering",
 "A scanner glued from several others, in any order and nesting, accepts a text exactly when one of them does, reports as accepted exactly the indices of the ones that accept (left operand's numbers first, right operand's shifted by the left's count), and counts the patterns correctly; its dead states are those dead for every part. Gluing with an empty scanner returns the other one, a result needing more states than the given limit (the start state is not counted) is reported as an empty scanner, and the operands are not disturbed.",
 ["programs", "inputs", "configurations"],
 "for every collection of scanners of a gluable kind, every grouping, every size limit and every text",
 "Tests glue two to four literals and check one text each; wrong numbering, a missed state of the product or a merged state shows only on particular combinations of simultaneously accepting patterns.",
 ["pire/glue.h", "pire/scanners/multi.h", "pire/scanners/half_final.h", "pire/determine.h"],
 [("product construction", "pire/glue.h: ScannerGlueCommon, GluedStateLookupTable; pire/determine.h"), ("renumbering of accepted patterns", "pire/scanners/multi.h: ScannerGlueTask::AcceptStates")],
 ["Glue(...), AcceptedRegexps, RegexpsCount, Final, Dead, Empty"])

prop("C08", "Prefix and suffix searches return the exact extreme match position",
 "The longest- and shortest-prefix searches return the end of the longest/shortest prefix of the range that the scanner accepts (none if there is none), and the suffix searches, given a scanner for reversed text, the reverse end of the longest/shortest accepted suffix (the position just before its first character, as reverse ranges have it), with the begin and end marks taken into account exactly as asked for. The answer does not depend on scanner kind, buffer address, alignment or length, nor on what surrounds the range.",
 ["inputs", "programs", "configurations"],
 "for every scanner kind, text, range, alignment and choice of marks",
 "Tests use a few literals of under a hundred bytes; early stopping, shortcut skipping over accepting states and the mark handling go wrong only for particular lengths, alignments and flag combinations.",
 ["pire/run.h", "pire/scanners/multi.h"],
 [("predicate runs", "pire/run.h: LongestPrefixPred, ShortestPrefixPred, LongestPrefix, ShortestPrefix, LongestSuffix, ShortestSuffix"), ("skip in predicate runs", "pire/scanners/multi.h: RunAligned")],
 ["return values of LongestPrefix, ShortestPrefix, LongestSuffix, ShortestSuffix"])

prop("C09", "Final and dead reports describe the state's future exactly",
 "At every point of every run, a scanner reports its state final exactly when the text so far is accepted, and a deterministic scanner reports it dead exactly when no continuation of the text can be accepted any more; a scanner kind that does not track this never claims dead. Once dead, a scanner stays dead and non-final, and these reports survive gluing, copying and serialisation.",
 ["inputs", "programs", "histories"],
 "for every automaton, every scanner kind and every reachable state, including states of glued, copied and reloaded scanners; a continuation is any sequence of the automaton's letters (its alphabet includes a few letters that pad the tables and that no text contains)",
 "A wrong dead flag is invisible to acceptance tests: it only makes early exits cut a search short, or never happen. Tests look at Dead in one place.",
 ["pire/fsm.cpp", "pire/fsm.h", "pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/half_final.h", "pire/scanners/pair.h"],
 [("dead state computation and tagging", "pire/fsm.cpp: DeadStates; pire/fsm.h: BuildScanner"), ("flag combination when gluing", "pire/scanners/multi.h: ScannerGlueTask::AcceptStates; pire/scanners/half_final.h")],
 ["Final(state), Dead(state) at all reachable states"])

prop("C10", "Saving and loading or mapping back reproduces the scanner",
 "For every scanner kind, saving to a stream and then loading, or mapping the saved bytes at any suitably aligned address, gives a scanner with the same behaviour, sizes, pattern count and emptiness; it can be saved again to the same bytes. Several images written one after another read back independently: each load consumes exactly its own bytes and each mapping returns a pointer just past its own image.",
 ["programs", "histories", "inputs"],
 "for every scanner of every kind (small, large, empty, glued, copied, itself loaded or mapped) and every sequence of images in one stream or buffer",
 "Tests save two or three small scanners and re-run one text; alignment padding depends on table sizes, and chains such as load-after-map-after-save are not tried.",
 ["pire/scanner_io.cpp", "pire/scanners/common.h", "pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/slow.h", "pire/scanners/loaded.h", "pire/scanners/half_final.h", "pire/align.h", "pire/stub/saveload.h", "pire/extra/count.cpp"],
 [("image writers and readers", "pire/scanner_io.cpp; pire/scanners/*.h: Save, Load, Mmap"), ("alignment padding", "pire/align.h")],
 ["bytes produced by Save; scanner after Load/Mmap; pointer returned by Mmap; stream position"])

prop("C11", "Incompatible, misaligned or truncated images are refused",
 "An image whose header names another format, version, word size or scanner type, a mapping address that is not aligned, and a saved image cut off at any length are each refused with an exception, when mapped and when loaded from a stream (header and truncation). A refused load or mapping reads nothing outside the given bytes and leaves the target scanner as it was.",
 ["inputs", "fault_sequences", "crash_points"],
 "for every scanner kind, every truncation point of every image, every header field altered, and every misaligned address",
 "Tests alter nothing: no existing test loads a damaged image. The failing lengths are single byte offsets that depend on the image layout.",
 ["pire/scanners/common.h", "pire/scanner_io.cpp", "pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/slow.h", "pire/scanners/loaded.h", "pire/align.h", "pire/stub/memstreams.h"],
 [("header validation", "pire/scanners/common.h: Header::Validate, ValidateHeader"), ("bounds checks while mapping", "pire/scanners/common.h: MapPtr; pire/align.h: AlignPtr")],
 ["exception or success of Load/Mmap under AddressSanitizer with exact-size buffers and guard pages"])

prop("C12", "Scanners and automata are values, whatever was done to produce them",
 "After any sequence of constructing, copying, assigning (also to itself), moving, swapping, converting between relocatable and non-relocatable, gluing, saving, loading and mapping, and destroying, each scanner or automaton still behaves as the value it was given, independently of the others and of the lifetime of the objects it was made from (mapped memory excepted). No such sequence touches freed or uninitialised memory or leaks.",
 ["histories", "programs"],
 "for every sequence of these operations over a pool of objects of all kinds",
 "Tests copy a scanner once or twice; aliasing bugs need an order such as copy, destroy the source, then run, and a sanitizer to see them.",
 ["pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/slow.h", "pire/scanners/loaded.h", "pire/scanners/half_final.h", "pire/extra/count.h", "pire/extra/capture.h", "pire/fsm.cpp"],
 [("copying, aliasing, relocation", "pire/scanners/*.h: copy constructors, Alias, DeepCopy, Swap"), ("automaton swap", "pire/fsm.cpp: Swap")],
 ["behaviour (all reachable states) of each pool object after every operation, under AddressSanitizer"])

prop("C13", "Counting scanners report the true longest run of separated matches",
 "For a counted expression and a separator expression, the counting scanners report, for each pattern, the greatest number of consecutive matches that are separated only by the separator, on every text for which the respective scanner is exact; the count is never above what the text contains. Gluing counting scanners (up to the documented limit for the limited kinds) gives each pattern the count it has alone, and the kinds without that limit give the same results as the limited ones, also after saving and loading in either format.",
 ["inputs", "programs", "histories", "configurations"],
 "for every pair of counted and separator expressions, every text, every grouping of glued scanners",
 "Tests check fewer than fifty fixed text/count pairs; per-pattern counters, resets and actions merged while gluing go wrong only with particular overlaps of several patterns.",
 ["pire/extra/count.h", "pire/extra/count.cpp", "pire/scanners/loaded.h", "pire/scanner_io.cpp"],
 [("automaton with increment/reset outputs", "pire/extra/count.cpp: CountingFsm, CountingScanner"), ("counter updates", "pire/extra/count.h: TakeAction"), ("gluing of actions", "pire/extra/count.cpp: Glue tasks")],
 ["State::Result(i) after running the text"])

prop("C14", "Half-final counters count match positions as documented",
 "On a text that ends with the end mark, a scanner built from a half-final automaton reports for each pattern: with the exact overlapping counter, the number of positions at which a match ends (for every expression); with the non-overlapping counter, the matches found by ending each as early as possible; with the greedy counter, the matches found by taking each leftmost and as long as possible, unless more of them than the documented depth limit hang on one undecided match. The simplified overlapping and greedy counters never report more than the exact ones do, and report the same where no match continues another one and a match's first letter occurs nowhere else in matches. (Expressions that match the empty text are covered for the exact counter only.) A pattern is listed as accepted when its count is not zero; counts never fall. Glued scanners report for each pattern the count it has alone, in every grouping, saved, loaded or mapped.",
 ["inputs", "programs", "configurations"],
 "for every expression, counting mode for which exactness is documented, text and grouping of glued scanners",
 "Tests compare one table of about thirty expressions on four texts; the automaton rewriting depends on the shape of the expression and interactions show only in products of several counters.",
 ["pire/half_final_fsm.cpp", "pire/half_final_fsm.h", "pire/scanners/half_final.h"],
 [("counter construction", "pire/half_final_fsm.cpp: MakeGreedyCounter, MakeNonGreedyCounter"), ("result bookkeeping", "pire/scanners/half_final.h: TakeAction, State::Result, ScannerGlueTask")],
 ["State::Result(i) after each byte"])

prop("C15", "Approximate matching accepts exactly the texts within the edit distance",
 "A scanner compiled with distance d accepts a text exactly when it can be turned into a text of the original language by at most d insertions, deletions, substitutions or swaps of adjacent characters, no character being edited twice (the begin and end marks of a text count as characters). Distance zero is exact matching, and a greater distance never rejects what a smaller one accepted.",
 ["inputs", "programs"],
 "for every automaton, every distance and every text",
 "Tests try a dozen words at distances one and two; edits at the boundaries, inside loops and in combination need the whole language compared with the definition of the distance.",
 ["pire/approx_matching.cpp", "pire/approx_matching.h", "pire/scanners/multi.h"],
 [("layered automaton of edits", "pire/approx_matching.cpp: CreateApproxFsm")],
 ["Final after running the text on Compile<Scanner>(d) and on CreateApproxFsm"])

prop("C16", "A capturing scanner recognises the language and captures where it should",
 "A capturing scanner accepts exactly the texts that the pattern accepts. When the text leaves only one place for the captured group - no other way to match, and no earlier letter where the group could have begun or ended as far as the text was known by then - it reports the group's exact bounds (for a group that is not empty and is followed by a letter or the end mark); when nothing of the text could be the group or its end, it reports nothing, at least until the pattern has matched without it. Whatever it reports lies within the text, begins before it ends, and stays the same while more text is read. This also holds after copying, saving and loading.",
 ["inputs", "programs", "histories"],
 "for every pattern with a capture group and every text",
 "Tests check ten fixed patterns; off-by-one and wrong-path captures depend on the text around the group.",
 ["pire/extra/capture.h", "pire/extra/capture.cpp", "pire/scanners/loaded.h"],
 [("begin/end capture actions", "pire/extra/capture.h: CapturingScanner::TakeAction"), ("capture marks in the automaton", "pire/extra/capture.cpp")],
 ["State::Captured/Begin/End after running the text"])

prop("C17", "The slow capturing scanner picks the group the pattern's greediness asks for",
 "For every part of the text read so far, the slow capturing scanner of a pattern to be searched for (or of one beginning with ^) reports a capture exactly when the pattern matches there and the group takes part in the match, and the reported range is the one of the leftmost match in which alternatives are preferred in their order, greedy repetitions prefer more and non-greedy ones fewer iterations (a repeated group is captured the first time). Repetitions of expressions that may match nothing are not covered. The range lies within the text and does not depend on scanner copies, images or earlier runs.",
 ["inputs", "programs"],
 "for every pattern with one capture group, using greedy and non-greedy repetition, and every text",
 "Tests check about a dozen pattern/text pairs; priorities between paths matter only for ambiguous matches, of which there are unboundedly many.",
 ["pire/extra/capture.h", "pire/extra/capture.cpp"],
 [("ordered path simulation", "pire/extra/capture.h: SlowCapturingScanner"), ("greedy/non-greedy marking", "pire/extra/capture.cpp")],
 ["GetCapture, Final after running the text"])

prop("C18", "The easy regexp interface finds what a search for the pattern would find",
 "A regexp object built with any options matches a text exactly when some part of the text matches the pattern (anchored by ^ and $ at the text's ends), for text given as a character range, C string or string object, whichever scanner it uses internally and however many texts it was used on before. Invalid patterns throw the library's error, and copies behave like the original.",
 ["programs", "inputs", "configurations", "histories"],
 "for every pattern, option combination and text, including patterns too complicated to determinise",
 "Tests make five regexps; the fallback for complicated patterns and the treatment of anchors and options together are sampled once.",
 ["pire/easy.h", "pire/easy.cpp"],
 [("options and scanner selection", "pire/easy.h: Regexp::Init, Matches"), ("option flags", "pire/easy.h: Options")],
 ["Regexp::Matches, operator ==~, copies of Regexp"])

prop("C19", "Compile-time inlined patterns behave like patterns compiled at run time",
 "Source text processed by the inlining preprocessor, once compiled, gives for each inlined pattern (or group of patterns) a scanner with the behaviour and numbering of the same patterns and flags compiled at run time. All other source text, including string literals, character constants and comments that mention the macro, is passed through unchanged, and invalid input is reported with a failing exit status.",
 ["programs", "inputs"],
 "for every source file and every pattern, flag set and grouping in it",
 "One test file with six fixed uses is preprocessed during the build; escapes, quotes in comments and line continuations are not explored.",
 ["pire/inline.lpp"],
 [("source scanner and pattern compilation", "pire/inline.lpp")],
 ["output of the preprocessor tool, compiled and run against run-time compilation"])

prop("C20", "Shared scanners can be used from many threads at once",
 "A scanner that no thread modifies can be run, copied, glued and saved by any number of threads at the same time, each getting the result it would get alone, and threads may parse and compile patterns of their own concurrently once the library has been used. No such use has a data race.",
 ["schedules", "programs"],
 "for every interleaving of read-only uses of shared scanners and of independent compilations in several threads",
 "The test-suite is single-threaded; hidden shared state (lazily created tables, cached null scanners, static buffers) is only visible with concurrent callers and a race detector.",
 ["pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/slow.h", "pire/stub/singleton.h", "pire/re_lexer.cpp", "pire/encoding.cpp"],
 [("const scanner interface without shared mutable state", "pire/scanners/*.h"), ("lazily created singletons", "pire/stub/singleton.h")],
 ["results per thread and ThreadSanitizer reports"])

prop("C21", "Text encodings convert and match characters correctly",
 "For every Unicode code point the UTF-8 encoding produces its standard byte sequence and reads it back, decoding text yields its code points or throws the library's error for ill-formed input (truncated sequences, missing or stray continuation bytes, invalid lead bytes) without reading past its end, and the single-byte encoding does the same for its range and refuses the rest. The dot appended by an encoding accepts exactly one character: every encoded character, and nothing that is not of the encoding's lead and continuation byte structure.",
 ["inputs"],
 "for every code point and every byte sequence",
 "Tests convert a few Cyrillic strings; there are 1.1 million code points and every ill-formed or truncated sequence is a separate case.",
 ["pire/encoding.cpp", "pire/encoding.h", "pire/stub/utf8.cpp", "pire/stub/unidata_cpp.h", "pire/stub/codepage_h.h"],
 [("UTF-8 and Latin-1 conversion", "pire/encoding.cpp: ToLocal, FromLocal, AppendDot"), ("rune reading", "pire/stub/codepage_h.h: utf8_read_rune")],
 ["Encoding::ToLocal/FromLocal results and the automaton appended by AppendDot"])

prop("C22", "The command-line samples pass exactly the matching lines",
 "The grep-like sample prints exactly those lines of its inputs that contain a match of the pattern under the given options, unchanged, in order, and labelled with the file's name when several files are given. The blacklist sample passes exactly the addresses whose host is a listed domain or a subdomain of one, through a dictionary file it wrote itself, for any number of domains; errors (bad pattern, file that cannot be opened, damaged dictionary, wrong usage) give a message and a failing exit status.",
 ["inputs", "configurations"],
 "for every input text, option combination, pattern and domain list",
 "The samples have no tests at all.",
 ["samples/pigrep/pigrep.cpp", "samples/blacklist/blacklist.cpp", "tools/common/filemap.h"],
 [("line splitting and matching", "samples/pigrep/pigrep.cpp: GrepStream, main"), ("dictionary of domains", "samples/blacklist/blacklist.cpp: Generate, Use, Filter"), ("file mapping", "tools/common/filemap.h")],
 ["standard output and exit status of the built tools"])

prop("C23", "Automata edited state by state hold what was put in, and keep their flags",
 "Through the low-level construction interface an automaton always holds exactly what was put into it: adding, removing and diverting transitions, states, final marks, tags and outputs, importing another automaton (its states are shifted, nothing is connected, final marks are not taken), copying, swapping, packing letters into classes and unpacking them, in any order; the queries (destinations, connected, outgoing letters, finals, tags, outputs) show this, and determinising and compiling gives the language of exactly these transitions. When states are united, flags are united by bitwise OR: after determinising, the tag of a state is the OR of the tags of the states it stands for, the output of a transition holds all outputs of the transitions it stands for and no output of others, and minimising loses none of them. Diverted transitions take their outputs along.",
 ["programs", "histories"],
 "for every sequence of edits, and determinising and minimising at any point of it",
 "Tests build a handful of automata by hand, in one order, and never edit one again after its letters have been packed or after it has been determinised; tags and outputs are only seen through the scanners that use them.",
 ["pire/fsm.cpp", "pire/fsm.h", "pire/partition.h"],
 [("editing", "pire/fsm.cpp: Connect, Disconnect, Divert, Import, ConnectFinal, Resize"), ("letter classes", "pire/fsm.cpp: Sparse, Unsparse, Translate"), ("flags", "pire/fsm.cpp: FsmDetermineTask, FsmMinimizeTask; pire/fsm.h: Tag, Output")],
 ["Fsm::Destinations/Connected/OutgoingLetters/Finals/Tag/Output after every sequence of edits"])

prop("C24", "Lexer features supplied by the caller are asked in order and heard",
 "A caller may add features of its own to the lexer, in any number and order, next to the built-in ones. For every term of the pattern the lexer asks the features in rising order of their priority numbers whether they accept the next character, takes the term of the first one that yields one, and then shows the term to every feature in falling order; a feature may replace it. After each group every feature is shown the group's automaton in falling order and may replace it. A feature that reads characters, puts them back and yields nothing leaves the input as it was. Terms made by a feature (sets of strings, repetitions, anchors, dots, operators, parentheses, single characters) mean exactly what the built-in spelling means; changes made to terms and groups show in the automaton; an error raised by a feature makes parsing fail; every feature belongs to the lexer, and is destroyed with it, once.",
 ["programs", "inputs"],
 "for every set of features, order of adding them, and pattern",
 "Only the built-in features are tested, with fixed patterns; no test adds a feature of its own, watches the order of calls, or puts characters back.",
 ["pire/re_lexer.cpp", "pire/re_lexer.h", "pire/re_parser.y"],
 [("order", "pire/re_lexer.cpp: InstallFeature/AddFeature, DoLex, Lex, Parenthesized"), ("input", "pire/re_lexer.cpp: GetChar, PeekChar, UngetChar"), ("meaning", "pire/re_parser.y: AppendRange, ConvertToFSM")],
 ["calls of Accepts/Lex/Alter/Parenthesized seen by recording features", "scanner compiled from Lexer::Parse"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
