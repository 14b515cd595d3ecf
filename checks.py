"""What each check runs: harness, instrumented build, number of cases per tier, and how its cases are made."""

import build

TRUST = " Trusts the reference models in harness/, the compiler and its sanitizer runtime; says nothing about inputs the generators do not reach."
TECH = "runtime monitoring: reference-model oracle over sanitizer-instrumented runs"

def S(harness, variant, quick, thorough, **kw):
    return dict(harness=harness, variant=variant, quick=quick, thorough=thorough, **kw)

SAMPLES = {"VF_PIGREP": "samples/pigrep/pigrep.cpp", "VF_BLACKLIST": "samples/blacklist/blacklist.cpp"}

INLINE = {"VF_INLINE": "pire/inline.lpp"}
CXX = lambda: {"VF_CXX": build.compiler()}

CHECKS = {
"C01": dict(
    stages=[S("c01", "asan", 6000, 60000), S("c01", "fast", 20000, 400000)],
    technique=TECH + " (product walk of scanner and syntax-tree automaton)",
    note="Random patterns over the whole documented syntax, each compared on every text (all reachable pairs of scanner state and reference state, all 258 letters)." + TRUST,
    rule="a random pattern (all syntax, both encodings, every feature set) is compiled and walked next to the automaton built from its syntax tree, on all 258 letters in every reachable pair of states; non-trivial: the language's minimal automaton has more than two states; distinct by pattern text and features",
    min=2000),
"C03": dict(
    stages=[S("c03", "asan", 5000, 60000), S("c03", "fast", 12000, 300000)],
    technique=TECH + " (product walk of every scanner kind)",
    note="Random patterns and automata built state by state (nondeterministic, with empty moves, dead and unreachable parts, up to 257 letter classes), compiled to every scanner kind; each compared with the reference on every reachable pair of states and letter." + TRUST,
    rule="a random automaton is compiled to several scanner kinds, each walked next to the reference on all letters in every reachable pair of states, with state indices and sizes monitored; non-trivial: minimal automaton of more than two states; distinct by automaton and kinds",
    min=1500),
"C04": dict(
    stages=[S("c04", "asan", 3000, 40000), S("c04", "scalar", 1500, 20000), S("c04", "fast", 6000, 200000), S("c04", "nocheck", 3000, 50000)],
    technique=TECH + " (run versus letter-by-letter stepping on guarded buffers)",
    note="Every scanner kind over texts with long state-keeping stretches, at every address and length modulo 16, next to inaccessible pages, split at random, alone and in pairs; in vector, scalar, optimised and assertion-free builds." + TRUST,
    rule="a scanner is run over texts placed in guarded buffers and its whole observable state is compared with letter-by-letter stepping; non-trivial: minimal automaton of more than one state; distinct by automaton and scanner kind",
    min=1500),
"C05": dict(
    stages=[S("c05", "asan", 9000, 100000), S("c05", "fast", 20000, 500000)],
    technique=TECH + " (language algebra by independent automata, product walk)",
    note="Random expressions over all automaton operators, in place and copying, on pattern-like and raw automata, each compared with the same operations of the reference on every text." + TRUST,
    rule="a random expression of automaton operators is evaluated by the library and by the reference and the languages compared on every reachable pair of states; operands taken by reference are dumped before and after; non-trivial: minimal automaton of more than two states; distinct by expression",
    min=3000),
"C02": dict(
    stages=[S("c02", "asan", 7000, 100000, chunk=12), S("c02", "fast", 16000, 300000, chunk=50)],
    technique=TECH + " (malformed and mutated patterns under sanitizers, acceptance decided by an independent grammar)",
    note="Random code point strings, mutated patterns, known-malformed shapes and sequences of good and bad parses; crashes, leaks, hangs and silent acceptance are monitored." + TRUST,
    rule="a pattern text (random, mutated, or malformed by construction) is parsed and must compile or throw the library's error; non-trivial: not the empty pattern; distinct by text and features",
    min=3000),
"C06": dict(
    stages=[S("c06", "asan", 2400, 30000), S("c06", "fast", 8000, 150000)],
    technique=TECH + " (language, determinism, minimality and dead states recomputed after each transformation)",
    note="Random automata under random sequences of the transformations and size limits; language, state counts, successors and dead states are compared with independently computed ones." + TRUST,
    rule="a random automaton goes through a random sequence of transformations and after each one its language and structure are compared with the reference; non-trivial: minimal automaton of more than two states; distinct by automaton",
    min=1000),
"C07": dict(
    stages=[S("c07", "asan", 2000, 30000), S("c07", "fast", 5000, 120000)],
    technique=TECH + " (product walk of glued scanners with all parts)",
    note="Two to many random parts glued in random order and nesting with random limits; accepted pattern numbers, finality and deadness compared in every reachable combination of the parts' states." + TRUST,
    rule="several random scanners are glued and the result walked next to all parts' references; non-trivial: product of more than two states; distinct by the parts",
    min=1000),
"C08": dict(
    stages=[S("c08", "asan", 9000, 120000), S("c08", "scalar", 2500, 40000), S("c08", "fast", 25000, 600000)],
    technique=TECH + " (extreme positions recomputed by definition, guarded buffers)",
    note="Every scanner kind over texts with long state-keeping stretches at every alignment, next to inaccessible pages, with every choice of marks." + TRUST,
    rule="longest and shortest prefix and suffix of random texts are compared with all accepted positions of the reference; non-trivial: minimal automaton of more than one state; distinct by automaton",
    min=3000),
"C09": dict(
    stages=[S("c09", "asan", 8000, 100000), S("c09", "fast", 25000, 500000)],
    technique=TECH + " (final and dead flags compared in every reachable state)",
    note="Every scanner kind, also copied, moved, reloaded, mapped, converted and glued; final and dead flags compared with the reference in every reachable state." + TRUST,
    rule="a scanner, possibly copied, reloaded, converted or glued, is walked next to the reference, comparing final and dead flags; non-trivial: automaton with a dead state besides live ones; distinct by automaton",
    min=2000),
"C10": dict(
    stages=[S("c10", "asan", 6000, 80000), S("c10", "fast", 20000, 400000)],
    technique=TECH + " (behaviour and bytes compared after save, load, map and conversion)",
    note="Every scanner kind, plain, glued, moved and empty, saved, loaded, mapped, saved again, converted; states, runs and bytes are compared." + TRUST,
    rule="a random scanner is saved, loaded and mapped and the copies' whole behaviour is compared with the original's; non-trivial: more than one state; distinct by scanner",
    min=3000),
"C11": dict(
    stages=[S("c11", "asan", 2000, 30000), S("c11", "nocheck", 2000, 30000)],
    technique=TECH + " (truncated and altered images on guarded memory, targets compared afterwards)",
    note="Images of every scanner kind cut at every kind of place or with header fields altered, loaded from streams and mapped at the end of accessible memory." + TRUST,
    rule="a saved image is cut short or its header altered and must be refused by loading and mapping with the target left usable; non-trivial: scanner of more than one state; distinct by scanner and cut",
    min=1000),
"C12": dict(
    stages=[S("c12", "asan", 2500, 40000), S("c12", "fast", 8000, 150000)],
    technique=TECH + " (random histories of value operations, all observables compared after each)",
    note="Random sequences of copy, move, swap, assignment, glue, save, load, map and destruction over scanners and automata; every live object's behaviour is compared with its model after every step, under address, leak and undefined-behaviour sanitizers." + TRUST,
    rule="a random history of value operations over several scanners or automata; after each step every live object is compared with the value it should hold; non-trivial: at least one pair of states; distinct by history",
    min=800),
"C13": dict(
    stages=[S("c13", "asan", 1600, 30000), S("c13", "fast", 9000, 200000)],
    technique=TECH + " (longest separated chain found by dynamic programming, glued counts compared with separate ones)",
    note="Random counted and separator expressions; bounded by the longest chain on every text and equal to it where the chain can be read one way only; glued in random groupings, reloaded, and in both image formats." + TRUST,
    rule="counting scanners of all three kinds are run over texts made of matches, separators and noise; non-trivial: a chain of more than one match was there; distinct by expressions",
    min=800),
"C14": dict(
    stages=[S("c14", "asan", 1500, 30000), S("c14", "fast", 12000, 300000)],
    technique=TECH + " (counts recomputed by definition from all substrings, glued counts compared with separate ones)",
    note="Random expressions in all five counting modes and all four half-final kinds, plain and glued, reloaded and converted; texts of up to about sixty letters." + TRUST,
    rule="half-final counters are run over texts of matches and noise and every count compared with the definition; non-trivial: a count above one was there; distinct by expressions, modes and kind",
    min=1000),
"C15": dict(
    stages=[S("c15", "asan", 1600, 30000), S("c15", "fast", 8000, 150000)],
    technique=TECH + " (product walk of the scanner and edit-distance dynamic programming)",
    note="Words, patterns and raw automata at distances 0 to 3, compiled to eight kinds; each walked over all texts next to the edit-distance tables (pair limit 1500 quick, 6000 thorough). Automata with very many adjacent letter pairs are left out, as they take gigabytes." + TRUST,
    rule="an automaton compiled with a distance is walked next to the least-edits table on representative letters of every class; non-trivial: distance above zero and more than two states; distinct by automaton, distance and kind",
    min=1000),
"C16": dict(
    stages=[S("c16", "asan", 2500, 40000), S("c16", "fast", 16000, 400000)],
    technique=TECH + " (product walk for the language; an automaton with marked moves tells where the group's borders can be seen)",
    note="Random patterns with a group (nested, optional, beside alternatives, anchored or surrounded), scanners as compiled, copied, loaded and mapped; captures compared on random texts near the language." + TRUST,
    rule="a pattern with a group is compiled and walked next to its language's automaton; on random texts the capture is compared with the only possible place of the group, and monitored for bounds and stability on all; non-trivial: some text had a definite capture; distinct by pattern",
    min=2000),
"C17": dict(
    stages=[S("c17", "asan", 3000, 40000), S("c17", "fast", 20000, 500000)],
    technique=TECH + " (captures compared with a backtracking matcher with Perl's priorities)",
    note="Random patterns with nested alternatives, greedy and non-greedy repetitions, marks anywhere, UTF-8 and case-insensitive ones; texts of up to 14 characters asked for their capture at many prefixes; scanners copied, loaded, mapped, states reused." + TRUST,
    rule="a random pattern with a group runs over random texts and texts made from it, and the captured range is compared with the backtracking matcher's at random prefixes; non-trivial: at least two different ranges were captured; distinct by pattern",
    min=3000),
"C18": dict(
    stages=[S("c18", "asan", 10000, 100000), S("c18", "fast", 70000, 1000000)],
    technique=TECH + " (searches recomputed by the pattern's own automaton)",
    note="Random patterns under every option combination, written in different ways, given as text or scanner, copied, assigned and reused; matching and non-matching texts of any bytes; patterns too complicated to determinise." + TRUST,
    rule="a regexp object made from a random pattern is asked about random texts in every way the interface offers and the answers are compared with the pattern's automaton; non-trivial: some texts matched and some did not; distinct by pattern and options",
    min=3000),
"C20": dict(
    stages=[S("c20", "tsan", 480, 8000, chunk=10), S("c20", "fast", 4000, 60000, chunk=60)],
    technique="runtime monitoring: ThreadSanitizer over concurrent uses, every result compared with the one got alone",
    note="Two to five threads doing random operations (run, search, copy, assign from, glue, convert, save, load, parse, compile, combine automata, match) on shared scanners and automata of every kind and on their own objects, with random delays, after every feature has been used once; results compared with those got alone, before and after." + TRUST,
    rule="random operations on shared scanners are done alone and then by several threads at once, under ThreadSanitizer and without; non-trivial: some operations overlapped in time; distinct by objects and order of operations",
    min=300),
"C21": dict(
    stages=[S("c21", "asan", 4000, 60000, chunk=12), S("c21", "fast", 14000, 300000, chunk=24)],
    technique=TECH + " (every code point, every sequence of up to three bytes; product walk of the dot)",
    note="All code points written and read; all sequences of up to three bytes and a share of those of four, in buffers nothing may be read beyond; mixed and damaged texts; the dot appended to random automata, on all texts; characters as patterns. Overlong forms and surrogates may be read or refused." + TRUST,
    rule="code points and byte sequences are converted by the library and by the definition of UTF-8 and compared; non-trivial: a block of code points or sequences, a text, or an automaton with a dot; distinct by block, text or automaton",
    min=2000),
"C22": dict(
    stages=[S("c22", "asan", 2400, 20000, tools=SAMPLES, chunk=10), S("c22", "fast", 24000, 300000, tools=SAMPLES, chunk=40)],
    technique="runtime monitoring: sanitizer-instrumented samples run as processes, output compared with a reference search line by line",
    note="pigrep with random patterns, options in any order, files and standard input, lines of any bytes; blacklist with random domain lists of up to 1200 domains (4000 thorough) and addresses near them; bad patterns, missing files, damaged dictionaries, wrong usage." + TRUST,
    rule="a sample is run on random input and its output and exit status compared with the expected ones; non-trivial: some lines or addresses passed and some did not; distinct by arguments and input",
    min=500),
"C23": dict(
    stages=[S("c23", "asan", 5000, 60000, chunk=12), S("c23", "fast", 30000, 600000, chunk=24)],
    technique=TECH + " (model of the transition table; product walk of the compiled scanner; walk of the determinised automaton next to the sets of states)",
    note="Random histories of edits of up to 80 steps, with imports nested two deep; all queries for all letters are compared with a model; outputs are judged on automata without empty moves, tags on all, up to the first state that accepts everything." + TRUST,
    rule="an automaton and a model of it are edited in the same way and compared, then determinised, minimised and compiled; non-trivial: more than two state and letter pairs have transitions; distinct by history",
    min=2000),
"C24": dict(
    stages=[S("c24", "asan", 4000, 60000, chunk=12), S("c24", "fast", 30000, 600000, chunk=24)],
    technique=TECH + " (recording features as online checkers of the order of calls; product walk against the reference automaton)",
    note="Patterns mixing built-in syntax with terms, groups and letter exchanges of one to eight added features of random priorities, around those of the built-in ones." + TRUST,
    rule="a pattern is parsed with features of the harness, which check the order and the input of their calls, and the result is walked next to the pattern's automaton; non-trivial: the automaton has more than two states; distinct by pattern and features",
    min=2000),
"C19": dict(
    stages=[S("c19", "asan", 1000, 20000, tools=INLINE, vars=CXX, chunk=10), S("c19", "fast", 3000, 60000, tools=INLINE, vars=CXX, chunk=20)],
    technique="runtime monitoring: sanitizer-instrumented preprocessor run as a process, its output compiled and run, scanners walked next to the patterns' automata",
    note="Random sources of literals, comments, raw strings, look-alikes and inlined patterns (all flags, groups of up to four, every way to write the pattern down), compared byte for byte outside the patterns; some are compiled with g++, run, and their scanners, string literals and line numbers compared; invalid sources and usage must fail." + TRUST,
    rule="a random source is preprocessed and its text compared, or compiled and its scanners walked on all texts; non-trivial: the source was new; distinct by source or inlined pattern",
    min=1000),
}
