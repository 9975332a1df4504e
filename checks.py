"""The checks: what each runs, and how its evidence is described."""
from lib import vbuild, driver

def harness(src, variant="rel", args=(), label="", **kw):
    bkw = {k: kw.pop(k) for k in ("extra", "link", "libextra", "sections") if k in kw}
    def run(ctx):
        srcs = src if isinstance(src, list) else [src]
        exe = vbuild.harness(srcs[0].split("/")[-1].split(".")[0], srcs, variant, **bkw)
        progs = {"{%s}" % n: n for n in ("fsm", "re", "rx", "lx")}
        a = [x[:x.index("{")] + vbuild.program(progs[x[x.index("{"):]], variant) if x[x.find("{"):] in progs else x for x in args]
        driver.explore(ctx, exe, a, asan=(variant == "asan"), label=label, **kw)
    return run

CHECKS = {}
def check(pid, level, rule, runs, bounds="", assumptions=(), technique="", note=""):
    CHECKS[pid] = dict(level=level, rule=rule, runs=runs, bounds=bounds, assumptions=list(assumptions), technique=technique, note=note)

BASE = ["The reference automata and the product exploration in lib/ref.h are correct.",
        "Machines are read back through fsm_walk_edges, fsm_isend, fsm_getstart and the id accessors; P13 checks those against the construction calls."]

check("P01", "model_checking",
  "One case per automaton of the enumeration (all automata with n states and at most k transitions over two letters plus epsilon, every end set, letters mapped to eight byte-set "
  "alphabets in rotation; and 24 parametric families swept over sizes across the code's growth thresholds in four state orders). Non-trivial: the language is not empty. "
  "For each, every reachable product state of the result and the reference subset construction is visited.",
  [harness("h/p01.cc")],
  bounds="quick: n=1 all, n=2 k<=6, n=3 k<=4, n=4 k<=3, families up to 400 states; thorough: n=2 all 12 transitions, n=3 k<=5, n=4 k<=4, every family size",
  assumptions=BASE,
  technique="explicit-state product exploration of implementation result x reference subset construction, over an exhaustive enumeration of small automata",
  note="Language equality is decided for all strings per automaton; automata are exhaustive only to the stated sizes, plus parametric families.")

check("P02", "model_checking",
  "One case per DFA: every DFA with up to 3 states over 2 letters (unreachable and dead states included), every 2-state DFA over 3 letters, every connected DFA with 4 states over 2 letters, "
  "6-state unary DFAs, determinised parametric families and glued-copy machines whose equivalence classes cross the code's thresholds, each with end id and eager output assignments in rotation. Non-trivial: non-empty language. "
  "Behaviour (accept, end ids, eager outputs) is compared on every reachable product state, and the state count with that of the reference partition refinement.",
  [harness("h/p02.cc")],
  bounds="quick as stated; thorough adds 3 states over 3 letters, 5 over 2, 8 over 1, and every family size",
  assumptions=BASE,
  technique="explicit-state product exploration of the minimised machine x its input, plus reference Myhill-Nerode counting, over an exhaustive enumeration of DFAs",
  note="Exhaustive to the stated DFA sizes; parametric families beyond that.")

check("P03", "model_checking",
  "One case per pair (or array) of operands: all pairs of automata from the full lists with 1 state (<=3 transitions) and 2 states (<=2 transitions, epsilons included), 3-state machines against those, "
  "pairs of parametric families with products across the walk's pool size, operands with no start state or no states, and every array of up to four from a pool of ten machines of different sizes, with end id assignments in rotation. "
  "Non-trivial: both languages are not empty. The result is compared with the reference construction on every reachable product state.",
  [harness("h/p03.cc")],
  bounds="quick as stated; thorough: 2 states with up to 3 transitions in pairs, all 3-state machines with 2 transitions, larger families",
  assumptions=BASE,
  technique="explicit-state product exploration of the operation's result x the reference Boolean construction, over an exhaustive enumeration of operand pairs",
  note="Exhaustive for operands up to the stated sizes; families beyond.")

check("P04", "model_checking",
  "One case per pair of operands for concatenation (all pairs of automata with 1 state (<=3 transitions) and 2 states (<=2 transitions), 3-state unary machines against 1-state ones, and families) and one per automaton for reversal and completion. "
  "Non-trivial: languages are not empty. The result, the result reversed again, and the result determinised are compared with the reference on every reachable product state.",
  [harness("h/p04.cc")],
  bounds="quick as stated; single machines: n=2 k<=5, n=3 k<=3 with epsilons and k<=4 without, n=4 k<=3 unary; product exploration capped at 8000 states and determinisation at 3000 (counted when reached)",
  assumptions=BASE,
  technique="explicit-state product exploration of the operation's result x the reference construction, over an exhaustive enumeration of automata and pairs",
  note="Exhaustive to the stated sizes; families beyond.")

check("P05", "model_checking",
  "One case per starting machine: the machine with no states, every automaton with 1 state (<=3 transitions), 2 or 3 states (<=2 transitions, epsilons included), carrying end ids and eager outputs, a fifth of them with no start state, "
  "explored over every sequence of structural edits up to the depth from 23 kinds of edit (add, bulk add, remove, end on/off, ids, eager outputs, compaction under four filters, trims with and without distances, shuffle, vacuum, clone, edits to a clone, "
  "merges either way round, move, mergestates, collate, subgraph duplication, new edges), replaying each prefix on a fresh machine. Non-trivial: all. After every edit the real graph must be isomorphic to a model machine edited alongside; "
  "after the last, reversal (which depends on end state counts kept beside the graph) must be right too. Families across growth thresholds go through a fixed series of edits.",
  [harness("h/p05.cc"), harness("h/p05.cc", "asan", ["--lite=1"], label="asan")],
  bounds="quick: depth 3 from 0- and 1-state machines, 2 from 2- and 3-state ones; under the sanitizers: depth 2, and 2-state machines with one transition; thorough: depth 4/3/2-3, and the quick bounds under the sanitizers",
  assumptions=BASE + ["End ids left on a state that stopped being an end state are nobody's business: the model does not re-mark such a state."],
  technique="exhaustive enumeration of edit sequences on the real code with a model machine alongside and an isomorphism check after every edit",
  note="Exhaustive to the stated machine sizes and edit depths; families beyond.")

check("P06", "model_checking",
  "One case per ordered pair from the full lists of automata with 1 state (<=3 transitions) and 2 states (<=2 transitions), epsilons included, every pair (a stride of them in quick) of 3-state unary machines, one case per machine for emptiness and self-equality "
  "(n=3 k<=3, n=4 k<=2), and family members against a renumbered, determinised or minimally altered copy. Non-trivial: the languages are equal (or empty). The answer is compared with joint exploration of all reachable product states; the arguments are read back afterwards and must be unchanged.",
  [harness("h/p06.cc")],
  bounds="quick as stated; thorough: pairs with k<=3, all unary 3-state pairs, n=3 k<=5, n=4 k<=3, larger families; pairs whose reference subset construction exceeds 2000 states or whose product exceeds 100k (400k) are skipped and counted",
  assumptions=BASE,
  technique="explicit-state exploration of all reachable product states of two reference subset constructions, against the implementation's verdict, over an exhaustive enumeration of machine pairs",
  note="Exhaustive to the stated sizes; families beyond.")

check("P07", "model_checking",
  "One case per DFA: every DFA with 1 state over 3 letters, 2 states over 2 and 3 letters, a third (thorough: all) of those with 3 states over 2 letters, NFAs with up to 2 states, and parametric families (determinised by the reference). Non-trivial: the language is not empty. "
  "For each DFA every (reachable state, byte) pair is executed on the real matcher (all 256 bytes, or both sides of every boundary between transitions), twice: as given and with every state an end state so that the state reached is visible; then all strings up to length 3-5 (7) over the byte classes, and one 5000-byte walk. "
  "Result, end state, number of bytes read and reads at end of input are compared with the transition table, through fsm_sgetc, fsm_fgetc and a counting reader.",
  [harness("h/p07.cc")],
  bounds="quick: families up to 130 states, thorough: to 400 and all 3-state DFAs",
  assumptions=BASE,
  technique="exhaustive enumeration of (state, byte) transitions and bounded strings on the real matcher against the explicit transition table, over an exhaustive enumeration of DFAs",
  note="Exhaustive to the stated DFA sizes and string lengths.")

check("P08", "model_checking",
  "(1) One case per first call: every sequence of up to 3 calls from about 57 (set, bulk append/replace with lists that grow the arrays, setendid, remaps (identity, to one, half, reversing, stopping), increments that wrap) on three states, "
  "and every sequence of 2 on machines whose id table holds 0..40 entries already, with every accessor compared with a map of sets after each call. (2) One case per automaton: every pipeline of up to 3 (1-state) or 2 (2- and 3-state, families) "
  "operations from epsilon removal, determinise, minimise, trim (two modes), clone, shuffle, union and merge (either way round); after each the ids are compared with the reference on every reachable product state, and at the end all strings up to length 3-4 are executed and their ids read. Non-trivial: language not empty.",
  [harness("h/p08.cc")],
  bounds="quick as stated (a sixteenth of the larger automata); thorough: call depth 4, pipelines of 3, all automata",
  assumptions=BASE + ["Minimisation and union are asked only of machines with a start state."],
  technique="exhaustive enumeration of call sequences and transformation pipelines on the real code, with a model map of sets and explicit-state product exploration",
  note="Exhaustive to the stated depths and sizes.")

check("P09", "model_checking",
  "(1) One case per group of patterns: all singles and all ordered pairs from 92 patterns (20 bodies under the four anchorings, and mixed ones such as a|^$), ordered triples from a sixth (thorough: a third) of them, and groups of 2-12 long patterns, through re_comp, fsm_union_repeated_pattern_group, determinise and minimise. "
  "Every reachable joint state of (each pattern's own automaton, the combined machine, outputs so far) is explored for the combined NFA, DFA and minimal DFA: the ids reported must be those of the matching patterns; then every string up to length 3-5 is executed with the real callback. The bases returned must locate each operand. "
  "(2) One case per automaton carrying eager outputs: the set of outputs so far, on every input which can still match, is unchanged by cloning, epsilon removal, determinising and minimising, and fsm_exec emits them. (3) The accessors against a map of sets over call sequences. Non-trivial: all groups; in (2), the language is not empty.",
  [harness("h/p09.cc")],
  bounds="quick as stated; automata with 1 state (<=3 transitions), 2 (<=4), 3 (<=3, a third), families to 130; thorough: 2 (<=6), 3 (<=4), strings to length 5, families to 300",
  assumptions=BASE + ["The automaton re_comp gives for each single pattern is the reference for that pattern (P20-P22 decide it separately).", "Outputs on inputs which cannot be extended to a match are not compared: determinisation and minimisation may drop the paths."],
  technique="explicit-state exploration of all reachable product states of the per-pattern references and the combined machine, plus bounded exhaustive string execution on the real matcher",
  note="Exhaustive to the stated pattern pool, group sizes and automata.")

check("P10", "model_checking",
  "One case per DFA and maximum length: every DFA with 1 state over 3 letters (lengths 1, 2, 4, 9), 2 states over 2 and 3 letters, a third of those with 3 states, 2-state ones placed among dead and unreachable states with the start renumbered, parametric families, and every single byte or range as a label. "
  "For each: the full run must produce exactly one input per distinct path of the reference graph ending at an end state, then every sequence of answers (continue, prune, halt) to the first K callbacks (K=3-4), prune and halt at each later callback, and, with randomized set, every sequence of the first R random choices over five values through an interposed rand(). Non-trivial: some path exists. "
  "Each input is checked on the spot: accepted by the reference, reported end state, terminated, length, count.",
  [harness("h/p10.cc")],
  bounds="quick as stated, up to 3000 paths a case (larger are counted as too_many_paths) and families to 150 states; thorough: K=6, all 3-state DFAs, families to 500",
  assumptions=BASE + ["Distinct paths are sequences of states: one label is chosen per pair of states, as the header documents."],
  technique="exhaustive enumeration of callback answer sequences and random choices over the real generator, against explicit enumeration of the graph's paths",
  note="Exhaustive to the stated DFA sizes, lengths and answer depths.")

check("P11", "model_checking",
  "One case per DFA: every DFA with 1 or 2 states over 3 letters, 3 states over 2 letters, every reachable one with 3 states over 3 letters and an eleventh (thorough: all) with 4 over 2, parametric families (also trimmed and renumbered), layered graphs with repeated labels, and every pair of bytes. "
  "Non-trivial: some byte is required. For each DFA and every step limit from 1 until well past the end of the search, and without a limit: the answer must be the reference set, or the limit with an empty set; the limits must be monotone and the DFA unchanged. The reference asks, byte by byte, whether an end state can be reached without it.",
  [harness("h/p11.cc")],
  bounds="quick as stated, families to 150; DFAs needing more than 200k (thorough: 3M) search steps are asked only with limits and counted as step_capped",
  assumptions=BASE,
  technique="exhaustive enumeration of DFAs and step limits on the real code against explicit reachability per byte",
  note="Exhaustive to the stated DFA sizes.")

check("P12", "model_checking",
  "One case per epsilon-free automaton: all with 1 state (<=3 transitions), 2 (<=6), a third of 3 (<=4), a fifth of 4 (<=3), families, and byte pairs placed as labels. For each: every start and goal under nine cost functions (legible, unit, zero, by label, by states, forbidding edges by infinite cost, costs near overflow), "
  "the path must be connected, begin and end where asked, and cost what relaxation to a fixed point over all labels says; fsm_example for every goal and every buffer size must spell a least-cost path, terminate, report the length and leave the bytes beyond alone. fsm_cost_legible's order is compared for all pairs of bytes. Non-trivial: some goal is reachable.",
  [harness("h/p12.cc")],
  bounds="quick as stated; thorough: all 3-state (<=5), 4-state (<=5, a fifth), families to 300",
  assumptions=BASE + ["A total of UINT_MAX or more counts as infinite, as cost.h says."],
  technique="exhaustive enumeration of automata, start and goal pairs, cost functions and buffer sizes on the real code against an explicit fixed-point computation",
  note="Exhaustive to the stated sizes.")

check("P13", "model_checking",
  "(1) One case per pair of first calls: every sequence of up to 5 calls on a 1-state machine, 4 on 2 states and 3 on 3 states, from addedge_literal (bytes around sign bit and bitmap word boundaries), addedge_any, addedge_epsilon, setend (0, 1, 2), setstart and addstate, judged after every call. "
  "(2) One case per automaton: all with 1 state (<=4 transitions), 2 (<=5), 3 (<=3), 4 unary (<=2), and families. Non-trivial: all. Judged: every predicate on every state, the counters, has/all/count of each predicate, findmode, the walkers (every edge exactly once; stopping after every number of calls), "
  "reachableall/any from every state under every subset as predicate, nondeterminism within the epsilon closure; all against a map from state pairs to byte sets.",
  [harness("h/p13.cc")],
  bounds="quick as stated, families to 300; thorough: depths 6/5/3, 2 states (<=6), 3 (<=4), 4 (<=4), families to 400",
  assumptions=BASE + ["Where two states of one epsilon closure have the same label to the same target only, either answer of fsm_hasnondeterminism is accepted."],
  technique="exhaustive enumeration of construction call sequences and automata on the real code with an explicit model graph alongside",
  note="Exhaustive to the stated depths and sizes.")

check("P14", "model_checking",
  "(1) One case per pair of first tokens: every text of up to 5 tokens (thorough 6) from 15 tokens of the format. (2) One case per document of up to two items with every choice of start and end declarations: the document in six spacings, and every deletion, insertion and replacement of one token. "
  "(3) One case per pair of first bytes: every string of up to 4 bytes (thorough 5) from 18 bytes as a label, inside quotes and as an id list; every single byte in 20 places; files with up to 5000 (12000) names. (4) One case per machine (all with 1 state (<=3 transitions), 2 (<=3), 3 (<=2), no start, families), with each of 7 id patterns in turn: printed with 16 option sets and parsed. "
  "Non-trivial: all but startless machines. A reader written from the format's rules says which texts are well formed and what they describe. The asan variant repeats this a step smaller.",
  [harness("h/p14.cc"), harness("h/p14.cc", "asan", ["--lite=1"], label="asan")],
  bounds="quick as stated; thorough: 6 tokens, 5 bytes, 2 states (<=4), 3 (<=3), families to 300",
  assumptions=BASE + ["Comments and labels cut off by the end of the file are parsed either way.", "Edge groups ('a'..'b') are an output convenience the grammar has no form for.", "A machine without a start state is printed without its ends."],
  technique="exhaustive enumeration of token sequences, byte strings and machines through the real printer and parser, against a reference reader; exit() intercepted",
  note="Exhaustive to the stated lengths; single-token edits of longer documents.")

check("P15", "model_checking",
  "One case per DFA: all with 1 state, 2 over 2 and 3 letters, reachable ones with 3 over 2 (thorough: all, and 4 states), one state whose bytes are split at up to three of 13 boundaries between three targets (a seventh; thorough all), every number of distinct targets up to 256 in four layouts, families, dense programs to 300 states x 256 branches, chains to 50000 and a program with more far branches than the fixed encoding can index (which must be refused). "
  "Each is compiled five ways (default; both encodings, with and without optimisation, with comments), and once more saved and loaded again (and loaded from its prefixes, which must be refused). On every string up to length 4-5 over one byte per class, and a complete W-method test suite (every state, every one of 256 bytes, a string set identifying the state reached), buffer and file answers must equal the DFA's; inputs around 4096 and 8192 bytes cover the file buffer. Non-trivial: it is a DFA with a start state; others must be refused or match nothing.",
  [harness("h/p15.cc"), harness("h/p15.cc", "asan", ["--lite=1"], label="asan")],
  bounds="quick as stated, families to 80; DFAs above 60 states try only bytes at which transitions change; a seventh of the states of programs above 150; thorough: no such cuts, families to 300",
  assumptions=BASE + ["The suite is complete for implementations with no more states than the DFA; compiled programs have one fetch instruction per state."],
  technique="exhaustive enumeration of DFAs; conformance of each compiled program to the DFA by complete W-method suites on the real VM",
  note="Exhaustive to the stated sizes; each program is compared by a test suite which is complete for its state count.")

check("P16", "model_checking",
  "One case per DFA: all with 1 state, 2 over 2 letters (a fifth over 3), a seventh of those with 3 over 2 (thorough: all), one state whose bytes are split at up to three of 13 boundaries between three targets (a stride; thorough all), literal sequences around every byte value with every neighbour that matters to C escapes, "
  "sequences with a NUL at every place, sequences across the 8192 byte buffer, numbers of distinct targets, parametric families, large dense machines, machines with no start, no end and unreachable parts. Non-trivial: a start state. "
  "For each: the switch-based and goto-based C, for each of getc, string and pair input, with ambiguity modes, comments, case ranges, hex, fragments and hooks in rotation (every combination for the smallest machines), compiled (as strict C90 unless case ranges are used) and loaded. Each function is run on every string to length 3-4 over one byte per class and on a "
  "complete W-method suite for the DFA, input placed against a guard page: result, ids, hook texts, advance calls, eager outputs and reads past the end are compared with the transition table.",
  [harness("h/p16.cc")],
  bounds="quick as stated, suites on boundary bytes only for repeated option combinations, sequences and machines above 40 states, and an eleventh of the states above 60; thorough: all bytes, all states, families to 200",
  assumptions=BASE + ["gcc compiles the C correctly.", "End states carry at least one id when code reporting ids is asked for.", "The suite is complete for implementations with no more states than the DFA: the generated code has one label per state."],
  technique="exhaustive enumeration of DFAs and printing options; conformance of the compiled generated code to the DFA by complete W-method suites",
  note="Exhaustive to the stated sizes; each function is compared by a test suite which is complete for its state count.")

check("P20", "model_checking",
  "One case per pattern and compile flags: every expression of up to 6 nodes (thorough 8) over a, b, dot, a class, a negated class, the empty expression, with concatenation, alternation, ?, *, + and counted repeats, each in spelling variants (capturing, named and non-capturing groups, counted and sugared repeats, \\Q..\\E, comments, extended-mode whitespace, inline flag settings and scopes), under no flags, RE_ANCHORED, RE_ICASE, RE_SINGLE and RE_REVERSE; and every nesting of counted repeats up to 10 (14) of unions and concatenations. "
  "Non-trivial: compiled rather than declared unsupported (allowed only where a nullable alternative is repeated without bound). A reference automaton is built from the enumerated syntax tree, not from the text, and every product state of it and the compiled FSM is visited.",
  [harness("h/p20.cc"), harness("h/p20.cc", "asan", ["--lite=1"], label="asan")],
  bounds="quick 6 nodes; thorough 8; products of more than 20000 states are counted as product_capped (the counted-repeat cases only)",
  assumptions=BASE,
  technique="exhaustive enumeration of expressions by size; explicit-state product exploration of each compiled FSM against a reference automaton",
  note="Exhaustive to the stated expression size.")

check("P21", "model_checking",
  "One case per pattern and flags: every expression of up to 6 nodes over ^, $, \\z, a literal, a newline and the empty expression with concatenation, alternation, *, ?, + and {2}; thorough adds 7 nodes without the newline, and 7 nodes with it where ? is the only repeat. Each unanchored and with RE_ANCHORED (and RE_END_NL explicitly for up to 4 nodes). "
  "Non-trivial: compiled rather than declared unsupported. The reference reads the expression with positions (nothing consumed yet; nothing or one final newline left), validated against Perl during development on 11190 patterns x 40 subjects; every product state of it and the compiled FSM is visited.",
  [harness("h/p21.cc", args=["--n=6", "--nl"], label="nl"), harness("h/p21.cc", args=["--n=7", "--tn"], label="n7"), harness("h/p21.cc", args=["--n=7", "--nl", "--opt", "--tn"], label="opt"),
   harness("h/p21.cc", "asan", ["--n=5"], label="asan")],
  bounds="as stated", assumptions=BASE + ["Patterns listed in known/P21-*.txt compile to another language than PCRE's: recorded findings."],
  technique="exhaustive enumeration of anchored expressions by size; explicit-state product exploration of each compiled FSM against a reference automaton with positions",
  note="Exhaustive to the stated expression size; 2-flag combinations.")

check("P22", "model_checking",
  "One case per pattern, case folding mode and dialect (PCRE and native): every byte as a literal (alone and between others), every byte after a backslash, every \\x, \\x{..}, \\o{..}, octal and \\c form with every value (and those too large, which must be refused) and what follows them, \\Q..\\E with every byte, dot with and without RE_SINGLE; "
  "bracket expressions of up to 2 items (thorough 3) from 75 (literals, escapes, ranges, POSIX and Perl classes), negated or not, with ] first, - first and - last; all 65536 range endpoint pairs written as escapes and as raw bytes; classes that fold to nothing or everything in concatenation, alternation and repetition; folding set by flag and inline. "
  "Non-trivial: must compile. Expected byte sets come from tables in the harness; the language of each compiled FSM is compared with a product walk, so all 256 bytes are decided.",
  [harness("h/p22.cc"), harness("h/p22.cc", "asan", ["--lite=1"], label="asan")],
  bounds="as stated; quick: two items with edges a fifth of the pairs",
  assumptions=BASE + ["Escapes of letters PCRE reserves without libfsm defining them (\\c alone, \\l \\L \\u \\U \\p \\P \\o) are unspecified.", "[[:^name:]] is documented as missing: it must be refused."],
  technique="exhaustive enumeration of escapes, bracket expressions and range endpoints; explicit-state product of each compiled FSM with the expected byte sets",
  note="Exhaustive for single atoms and range endpoints; bracket expressions to the stated length.")

check("P24", "model_checking",
  "One case per pattern and flags. glob and like: every string of up to 6 (thorough 8) of the two wildcards, two letters and a newline, every string of up to 3 (4) from 24 odd bytes, and every byte next to wildcards. literal: every byte, a third of (thorough all) byte pairs, strings of odd bytes, and lengths to 600. "
  "sql: every expression of up to 5 (6) nodes with %, _, classes, groups and repeats, every byte as a literal, inside classes and excluded, every pair of 18 class items, and inclusion ^ exclusion for those with a third. native: every expression of up to 6 (7) nodes, anchors included to 4 nodes. "
  "Non-trivial: compiled rather than declared unsupported (an alternation with an empty alternative inside +, as in PCRE). A reference automaton made from the enumerated structure is compared by visiting every product state.",
  [harness("h/p24.cc"), harness("h/p24.cc", "asan", ["--lite=1"], label="asan")],
  bounds="as stated", assumptions=BASE + ["The dialects are as their lexers' comments and manual pages describe: like, glob, literal and sql match the whole subject; native's $ is strictly the end; SQL class names are upper case and [:SPACE:] is a single space."],
  technique="exhaustive enumeration of patterns by size; explicit-state product exploration of each compiled FSM against a reference automaton",
  note="Exhaustive to the stated sizes.")

check("P25", "model_checking",
  "One case per text, dialect and flag set (flags rotate by index over 7 sets). PCRE: every text of up to 5 bytes (thorough 6) over 20 metacharacters and letters, every text of up to 6 (7) inside an open class, every text of up to 5 (6) inside an open count: an independent tokeniser and recogniser of the documented grammar says whether it is an expression, and if not which error and where. "
  "All dialects: every text of up to 4 (5) over odd bytes (NUL, 0xff, newline, comments, flags, names) and every sequence of up to 3-4 (4-5) tokens (escapes, numbers too large, POSIX class names, named groups, verbs). Each text is given three times, by counting reader, by fsm_sgetc and with no err. "
  "Non-trivial: compiles. Checked: outcome, error code, message by re_strerror and re_ferror, positions within the text and equal to the reference's, the offending counts, escape and range, same outcome and same machine from every reader, reading to the end and no further.",
  [harness("h/p25.cc"), harness("h/p25.cc", "asan", ["--lite=1"], label="asan")],
  bounds="as stated", assumptions=BASE + ["Which expected-token message a syntax error carries is not specified; its position is the token before the offending one.", "Acceptance without declared support (alternation with an empty alternative inside an unbounded repeat) may be refused as unsupported."],
  technique="exhaustive enumeration of texts against an independent recogniser of the grammar; repeated under every reader",
  note="Exhaustive to the stated lengths and alphabets.")

check("P26", "model_checking",
  "One case per pattern and flags. PCRE: every expression of up to 5 nodes (thorough 6) over ^, $, \\z, a letter, dot, a newline and the empty expression with concatenation, alternation, {0}, ?, {1}, + and {2}, in capturing and non-capturing groups (plain, RE_SINGLE and RE_ICASE up to 4 nodes); every sequence of up to 5 (6) of these and inline case folding; every byte and every length to 700, each way anchored. Native: every expression of up to 5 (6) nodes. "
  "Non-trivial: compiles. re_is_literal's answer is compared as an automaton (literal under its anchoring) with the reference automaton of the enumerated expression, and re_is_anchored's by comparing the reference with and without that end anchored; both by visiting every product state.",
  [harness("h/p26.cc"), harness("h/p26.cc", "asan", ["--lite=1"], label="asan")],
  bounds="as stated", assumptions=BASE + ["Which patterns beyond plain ones are recognised as literals is not specified, only that an answer given is right."],
  technique="exhaustive enumeration of expressions by size; explicit-state product exploration of a reference automaton against the reported literal and anchoring",
  note="Exhaustive to the stated sizes.")

check("P27", "model_checking",
  "One case per set of strings, flags and end id assignment: every subset of up to 4-5 of the words over two letters up to length 2-3 (and of longer words over one letter), every subset with the empty string and bytes 0 and 255, long and nested words, and sets across the trie's growth thresholds; left, right, both, neither anchored, and the automaton mode; "
  "no ids, distinct, shared, two to a string and partial ids; built by re_strings, and by the builder from strings and raw bytes. Non-trivial: all. The DFA given is compared with a reference automaton made of the strings alone by visiting every product state.",
  [harness("h/p27.cc"), harness("h/p27.cc", args=["--known-ids=1"], label="ids"), harness("h/p27.cc", "asan", ["--lite=1"], label="asan")],
  bounds="as stated in h/p27.cc; thorough: larger subsets and longer words", assumptions=BASE + ["Every string added is distinct from its buffer: the builder must copy."],
  technique="exhaustive enumeration of string sets, flags and ids; explicit-state product exploration of each DFA against a reference automaton",
  note="Exhaustive to the stated sizes.")

check("P28", "model_checking",
  "One case per format, escape character, group array and treatment of missing groups; each with no output, and with every output size from nothing to two more than needed, with and without error positions. Formats: every text of up to 5 (thorough 7) characters from seven (two escapes, digits, a letter) with 0 to 3 groups (empty ones and ones which hold escapes), "
  "every byte as the escape next to every byte, every group number near the number of groups (0 to 1000) and near every multiple of 2^32, leading zeros, and long formats. The format ends at an unreadable page, and bytes around the output are watched. Non-trivial: the format is well-formed. The header's rules, applied left to right, say what must come out.",
  [harness("h/p28.cc"), harness("h/p28.cc", "asan", ["--lite=1"], label="asan")],
  bounds="as stated", assumptions=["An escape character which is a digit is not considered.", "On error the contents of the output buffer are unspecified, as the header says; start is where the offending reference begins, or 0 when the output does not fit."],
  technique="exhaustive enumeration of formats, groups and buffer sizes against a left-to-right substitution model",
  note="Exhaustive to the stated lengths.")

check("P29", "model_checking",
  "One case per pattern, dialect, flags and escaping style. PCRE: every expression of up to 6 nodes (thorough 7) over a letter, a negated class, dot and the empty expression with five repeats; up to 5 (6) over letters and nine repeats, plain, RE_ICASE, RE_ANCHORED and RE_REVERSE; up to 6 (7) over inline flags; up to 6 (7) over ^, $ and \\z. Every byte alone, repeated, excluded, and in the literal, glob and like dialects; every pair of 36 range endpoints, plain and excluded, with and without other members; "
  "every named class; SQL exclusions; every native text of up to 5 (6) characters over eleven; six flag sets, with and without hex. Non-trivial: parses. The PCRE printed is read by a reader of our own, and its meaning compared with the enumerated expression's by visiting every product state; it must also compile to the same machine, and print again to the same. The ABNF printed is read by RFC 5234's and 7405's grammar and compared likewise. The dot output must be a well-formed tree with as many nodes as the tree output.",
  [harness("h/p29.cc"), harness("h/p29.cc", "asan", ["--lite=1"], label="asan")],
  bounds="as stated", assumptions=BASE + ["The text is to be read under the flags it was printed for; dialects which match whole subjects print what RE_ANCHORED reads.", "ABNF has no anchors, so anchored expressions are only checked for its grammar; subtraction is written a - b."],
  technique="exhaustive enumeration of expressions by size; explicit-state product exploration of the printed text's reference automaton against the expression's",
  note="Exhaustive to the stated sizes.")

check("P30", "model_checking",
  "One case per automaton: all with 1 state (<=3 transitions), 2 (<=6), a third of 3 (<=4), a fifth of 4 (<=3), unary ones with 4 and 5 states, every DFA with 3 states over 2 letters, parametric families and every byte and range as a label; renumbered for some; epsilons, unreachable and dead states, no start and no states included. "
  "Non-trivial: the language is not empty. The expression is printed as PCRE and as ABNF, read by readers of our own (validated by P29), and compared with the automaton by visiting every product state; every third is compiled again and compared too. The machine must be unchanged.",
  [harness("h/p30.cc"), harness("h/p30.cc", "asan", ["--lite=1"], label="asan")],
  bounds="as stated; expressions estimated longer than 20 000 nodes (thorough 100 000) are skipped and counted; thorough: all of 2 states, 3 (<=5), a third of 4 (<=4), larger families",
  assumptions=BASE,
  technique="explicit-state product exploration of the derived expression's reference automaton x the automaton, over an exhaustive enumeration of small automata",
  note="Exhaustive to the stated sizes; families beyond.")


check("P31", "model_checking",
  "One case per sequence of operations. Every sequence to a depth (4 to 8 by container) of every operation over small key domains (states, symbols, ids), from empty sets and from sets next to the growth thresholds; iterators compared after every step; and long parametric sequences (ascending, descending, interleaved, repeated) across every growth threshold, with every prefix checked. "
  "State sets, edge sets (literal, bulk, remove, copy, union, compaction, rebase, replacement, grouping, equivalence classes), tuple sets, interned sets, id maps, priority queues, queues and bitmaps. Non-trivial: changes the container. Each is compared with a mathematical set, map or sequence after every operation.",
  [harness("h/p31.cc"), harness("h/p31.cc", "asan", ["--lite=1"], label="asan")],
  bounds="as stated in h/p31.cc; thorough: one deeper", assumptions=["Preconditions asserted by the containers are respected, e.g. iterators are not used across modification."],
  technique="explicit-state exploration of operation sequences to a depth on the real containers, against abstract data types in lock step",
  note="Exhaustive to the stated depths.")

check("P32", "model_checking",
  "One case per operation, input and fault: about 120 operations (all that change, read, combine, determinise, minimise, print in every language, compile for the VM, generate; re_comp in every dialect and with linkage, re_strings, grouped unions) on 13 to 20 machines (epsilons, end ids, eager outputs, no start, dead states), with every allocation made through the allocator failing, alone and with all later ones. "
  "Non-trivial: the allocation was reached and failed. The allocator keeps canaries, poisons and quarantines what is freed, and recognises blocks which are not its own; assertions and signals are caught. After the operation its outcome, its result, and every machine left are compared with the reference by visiting every product state, then used and freed.",
  [harness("h/p32.cc"), harness("h/p32.cc", "asan", label="asan")],
  bounds="operations with over 400 allocations: the first 100, last 50 and an even spread of the others (quick); every one (thorough)",
  assumptions=["Memory which is not taken from the FSM's allocator (the .fsm parser, the VM encoder, IR-derived instructions, the regex parser's AST, which use malloc) does not fail.", "Combining two machines frees both when an allocation fails, and neither when it refuses them; fsm_mergeab leaves the first to the caller."],
  technique="systematic fault injection: exhaustive enumeration of allocation failure points in the real code, with explicit-state comparison of results",
  note="Exhaustive over fault points for the enumerated operations and machines.")

check("P33", "model_checking",
  "One case per operation, input and fault, as in P32 with .fsm parsing besides, and as in P31 for the containers: an allocator which owns every block it gives. Non-trivial: all. Nothing may remain once every machine has been freed, every block freed must be live and its own, and the canaries around it intact, both when nothing fails and for every allocation failing.",
  [harness("h/p32.cc", args=["--mem=1"]), harness("h/p31.cc", args=["--count=1"], label="containers"), harness("h/p32.cc", "asan", ["--mem=1"], label="asan")],
  bounds="as P31 and P32", assumptions=["Only memory taken through the FSM's allocator is counted."],
  technique="exhaustive enumeration of operations, inputs and allocation failures with an owning allocator monitoring every block",
  note="Exhaustive over fault points for the enumerated operations and machines.")

check("P35", "model_checking",
  "One case per machine, pair of machines, or list of patterns. For each, the real fsm or re program is run once for every operation (in every spelling, in rotation), query, execution of each string up to a length (as argument, file, and several at once), character set, printed language with option combinations in rotation, and generation; "
  "for patterns every mode (print, NFA, execute with one or several texts, examples, words, equality, literals, syntax trees) crossed with -u, -s, -b, -i, -y, -f, -x, -M, -z, -F. And a table of wrong uses which must fail. Non-trivial: the language is not empty. "
  "Machines printed are read by an independent reader and compared with the reference automata on every reachable product state; statuses and texts with the reference's answer; printed code with what the library prints.",
  [harness("h/p35.cc", args=["--fsm={fsm}", "--re={re}"])],
  bounds="machines: all with 1 state (<=2 transitions), a stride of 2 states (<=3), 3 states, DFAs with 2 or 3 states, families up to 11 (40) states; patterns: all up to size 3 over a, b, [ab], ^, $ with *, ?, {2}, pairs and triples of them; strings up to length 2-3",
  assumptions=BASE + ["re -q equal: only patterns which are all equal, or where a later one does not include an earlier one, have an expected answer."],
  technique="exhaustive enumeration of small machines, patterns and command lines executed on the real programs, with explicit-state product comparison of the machines they print",
  note="Exhaustive to the stated sizes; options are combined in rotation rather than all at once.")

check("P36", "model_checking",
  "One case per lx specification: pairs and triples of small patterns (literals, sets, repetitions, alternations, and the operators & | - ^ ~ ! and reversal, concatenation) with and without tokens, in one to three zones entered and left in every way (plain pairs, pairs with tokens, nested zones), variables, comments; and every token sequence up to a length as a specification that must be accepted or refused without crashing. "
  "lx is run on each; specifications for which the reference finds a text matched by rules that disagree must be refused, the others accepted, compiled, and the generated lexer run on every input over the bytes the zones tell apart, up to a budget. Non-trivial: accepted and run.",
  [harness("h/p36.cc", args=["--lx={lx}"])],
  bounds="about 4800 specifications (quick); inputs in order of length, a few hundred to some thousands per specification; token sequences up to length 3 (a stride)",
  assumptions=BASE + ["gcc compiles what lx writes as C requires.", "At the end of input inside an explicit zone, after text a rule there skips, either EOF or an unrecognised token is right (the manual does not say)."],
  technique="exhaustive enumeration of specifications and of inputs, executed on the lexers the real lx generates, against an explicit-state reference lexer",
  note="Exhaustive to the stated sizes.")

check("P37", "model_checking",
  "One case per specification (tokens over several lines, single characters, long tokens, skipped whitespace, zones, bytes over 127), input interface (fgetc, sgetc, agetc, dgetc, str, pair), token buffer (dynamic, fixed, both, none, excluded, not set), positions, names and examples excluded or not, and concurrency. Each generated lexer is run on every input in order of length up to a budget and on long inputs around the buffers' growth thresholds; "
  "for every token the start and end position (byte, line, column), the token buffer's text and length, the names and the examples are compared with the reference lexer's. Inputs lie against a guard page. Non-trivial: accepted and run.",
  [harness("h/p37.cc", args=["--lx={lx}"])],
  bounds="8 specifications, about 1200 (quick) configurations, a few thousand inputs each, up to 16385 (20000) characters long",
  assumptions=BASE + ["gcc compiles what lx writes as C requires.", "A fixed buffer is large enough for the token.", "The text is only compared for the buffers lx itself provides."],
  technique="exhaustive enumeration of inputs and configurations executed on the lexers the real lx generates, against an explicit-state reference lexer",
  note="Exhaustive to the stated sizes.")

check("P17", "model_checking",
  "One case per machine: DFAs with up to 3 states, a state's transitions split at boundary bytes, every byte alone and as a bound, every number of targets, larger tables, growth families, machines with unreachable states or none. Each is printed as LLVM IR, amd64 assembly (AT&T, NASM, Go), Go, Rust, awk, shell and VM operations in C, with the way of reading input, ambiguity mode, comments, hex, fragments (Rust, Go, awk) and case ranges in rotation (all of them for the smallest), "
  "compiled by clang, gcc/as, nasm, go and rustc, loaded or run, and asked every string up to a length and the W-method suite derived from the machine, which any implementation with as many states must answer differently somewhere if it is wrong. awk is run by mawk after rewriting switch; shell by bash. Unsupported combinations must be refused, and so must NFAs. Non-trivial: DFAs.",
  [harness("h/p17.cc")],
  bounds="about 900 (quick) machines with up to 90 (250) states, 6 to 12 programs each, 5.6e7 questions (quick); for awk and shell at most 3000 and 150 (1500) strings per program",
  assumptions=BASE + ["clang, gcc, nasm, go, rustc, mawk and bash implement their languages.", "awk and shell are given text only: no NUL or newline; Rust's str only valid UTF-8; strings no NUL.", "awk's switch statement (a gawk extension) falls through from case to case and compares as strings.", "awk answers 0 both for no match and for the id 0, which its output cannot tell apart; that id is not judged there."],
  technique="exhaustive enumeration of machines and print options; generated code is compiled and conformance-tested against the machine with W-method suites derived from its states and transitions",
  note="Exhaustive over the stated machines; the suites are complete for implementations with as many states, as programs printed from the machine have.")

check("P18", "model_checking",
  "One case per machine (all small ones, DFAs and NFAs with epsilons; boundary bytes; every number of targets; families) and option setting. The JSON, dot, IR JSON, IR dot output are read by independent readers and every state, transition, label, end, id and start compared with the machine; the API output is compiled, run, and the machine it builds compared. Non-trivial: machines with transitions.",
  [harness("h/p18.cc")],
  bounds="7100 cases (quick), 1.1e7 transitions compared",
  assumptions=BASE + ["gcc compiles the API output as C requires.", "Labels for character classes are for humans and can be read in several ways (where ^, - and ] are members); any reading equal to the set is accepted."],
  technique="exhaustive enumeration of machines and print options; outputs read back by independent readers and compared with the machine transition by transition; API output compiled, run and compared by explicit-state product",
  note="Exhaustive to the stated sizes.")

check("P19", "model_checking",
  "One case per machine with end ids. Error mode: every DFA to 3 states and NFA with epsilons to 3 under six id assignments, every combination of 11 id sets over three states, growth families, every byte on the way to a conflict; each printed in all 21 output languages with and without a conflict hook and with a hook which fails at each call: the result, the states reported, their ids, whether the example leads to such a state in the machine, and the caller's allocations are judged. "
  "Reported ids: the machines with every combination of id sets (no ids, 0, the largest, shared, overlapping, 70 ids) and numbers of distinct id sets to 100, printed as C, VM C, LLVM IR, Go, Rust, awk, shell and VM operations in each mode, compiled, and asked the W-method suite. Non-trivial: a reachable end state carries several ids (error mode); a DFA (ids).",
  [harness("h/p19.cc", label="error"), harness("h/p16.cc", args=["--ids=1"], label="C"), harness("h/p17.cc", args=["--ids=1"], label="languages")],
  bounds="quick: 6800 machines x 21 languages x hooks (error mode), 3600 machines (C), 330 (others, a thirteenth of them); thorough: all of them in C, a third in the others",
  assumptions=BASE + ["gcc, clang, nasm, go, rustc, mawk and bash implement their languages.", "Single-id modes are asked for only where every end state has an id.", "awk cannot tell the id 0 from no match."],
  technique="exhaustive enumeration of machines with end ids, ambiguity modes and output languages; generated code conformance-tested with W-method suites",
  note="Exhaustive over the stated machines and modes.")

check("P34", "model_checking",
  "Accesses: one case per operation instance (every library operation on every input machine, patterns in every dialect and their syntax trees, every output language with each ambiguity mode and way of reading, executions, VMs, parsers, string sets, generated C compiled and loaded: 2338 in all): it is run alone in a fresh process, instrumented so that every memory access it makes is seen, and what it reads and writes of the library's (and the generated code's) static data is recorded. Two instances with no conflicting access commute at every step, so all their interleavings fall into one trace; this is decided for all 5.5e6 pairs. For pairs with a conflict (4 per instance; thorough 24), the two are run as coroutines and switched before each access to what they share, up to 2 preemptions. "
  "Schedules: pairs of instances (each with itself, its neighbour, and in thorough ten others) switched at callbacks, stream reads and writes, and allocations: once at each (or evenly spread, for the largest) point, up to 2 or 3 times for short ones; results (machines, printed text, matches, errors) are compared with those alone. "
  "lx: its threads run under a controlled scheduler: every schedule which deviates at most twice (once for three threads) from running each thread as long as possible, at thread starts and ends, mutexes, and accesses which race by vector clocks; exit status, output and errors are compared with one thread's. Non-trivial: instances which survive alone; lx inputs it accepts.",
  [harness("h/p34.cc", label="library"), harness("h/p34lx.cc", label="lx")],
  bounds="2338 instances, all pairs for independence; quick: 2 preemptions at 1548 dependent pairs, 4700 pairs by explicit points; 9 lx inputs x 8 option sets x 2-3 threads, at most 500 schedules each; thorough: 12 partners, 8000 schedules a pair, 4 deviations, 60000 schedules",
  assumptions=BASE + ["An access through libc to the library's static data changes it, or is seen as a read or write elsewhere.", "libc's own functions are thread-safe.", "A write which leaves a value as it was commutes with reads and the same write.", "Sequential consistency (lx)."],
  technique="stateless model checking of the real code: partial-order reduction from recorded memory accesses (independence of all pairs), preemption-bounded exploration of coroutine schedules at conflicting accesses and callbacks, and a controlled scheduler with happens-before race detection for lx's threads",
  note="Results, not accesses, are judged; independence is per instance, so code no instance reaches is not covered.")
