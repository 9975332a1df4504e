#!/usr/bin/env python3
"""Generates properties.jsonl (kept as source because JSONL is unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

L = "src/libfsm/"
R = "src/libre/"

p("P01", "Determinisation and epsilon removal preserve the language",
  "For every FSM with a start state, fsm_remove_epsilons and fsm_determinise leave a machine that accepts exactly the same set of byte strings as before. Afterwards no state has epsilon transitions, and after determinisation no state has two transitions on one byte. When fsm_determinise_with_config is given a state limit it either stays within that limit or reports that the limit was reached, and whatever it reports the machine's language is unchanged.",
  ["inputs", "configurations"], "every finite automaton over bytes (any number of states, edges, epsilons, cycles) and every state limit",
  "Tests compare a few dozen hand-picked automata; the subset construction has caches, interned sets, group splitting and fast paths whose behaviour depends on the shape and size of the automaton.",
  [L+"determinise.c", L+"epsilons.c", L+"closure.c", "src/adt/internedstateset.c", "src/adt/edgeset.c", "src/adt/stateset.c"],
  [("subset construction with interned state sets", L+"determinise.c"), ("epsilon closure and edge copying", L+"epsilons.c")],
  ["fsm_determinise", "fsm_determinise_with_config", "fsm_remove_epsilons", "fsm_walk_edges", "fsm_exec"])

p("P02", "Minimisation preserves the language and yields a minimal DFA",
  "For every DFA, fsm_minimise leaves a DFA with exactly the same language, and for every byte string the same set of end ids and eager outputs are reported as before. The result has the least number of states of any (trimmed) DFA with that observable behaviour: no two states of it are equivalent and every state is reachable and can reach an end state.",
  ["inputs"], "every DFA with any assignment of end states, end ids and eager outputs",
  "Tests check a handful of DFAs plus an optional fuzzer; partition refinement switches representation at thresholds on class size and label count and must be right for every shape.",
  [L+"minimise.c", L+"consolidate.c", L+"trim.c"],
  [("partition refinement (Moore/Brzozowski) with initial end-metadata split", L+"minimise.c"), ("state merging", L+"consolidate.c")],
  ["fsm_minimise", "fsm_countstates", "fsm_exec", "fsm_endid_get"])

p("P03", "Boolean set operations on FSMs compute the right language",
  "For all pairs of FSMs which have a start state, fsm_union, fsm_union_array, fsm_intersect, fsm_subtract and fsm_complement produce an FSM whose language is exactly the union, intersection, difference or complement of the operands' languages, and fsm_intersect_charset restricts a language to strings drawn from the given bytes. fsm_union, fsm_union_array and fsm_intersect give a string the end ids of every operand that accepts it, fsm_subtract keeps the first operand's, and fsm_union and fsm_union_array report base offsets that map each operand's states into the result.",
  ["inputs"], "every pair (or array) of automata, deterministic or not, including empty languages and shared states",
  "Tests use fixed pairs of small files; correctness quantifies over all pairs of languages.",
  [L+"union.c", L+"intersect.c", L+"subtract.c", L+"complement.c", L+"complete.c", L+"walk2.c", L+"charset.c", L+"merge.c"],
  [("product walk over a state-pair table", L+"walk2.c"), ("merge with rebased state ids", L+"merge.c")],
  ["fsm_union", "fsm_union_array", "fsm_intersect", "fsm_subtract", "fsm_complement", "fsm_intersect_charset"])

p("P04", "Concatenation, reversal and completion compute the right language",
  "fsm_concat yields exactly the strings formed by a string of the first language followed by one of the second, refusing an operand with no start state; fsm_reverse yields exactly the mirror images of the strings of the language. fsm_complete over a state class adds transitions without changing the language and makes every matching state have a transition for every byte.",
  ["inputs"], "every automaton (and pair of automata), including empty languages, several end states, epsilon cycles and re-entrant start states",
  "Only a few reverse and concat cases exist; the property is over all automata.",
  [L+"concat.c", L+"reverse.c", L+"complete.c"],
  [("epsilon from end states to the second start", L+"concat.c"), ("edge reversal with a new epsilon start", L+"reverse.c")],
  ["fsm_concat", "fsm_reverse", "fsm_complete"])

p("P05", "Structural edits keep every other state's behaviour",
  "fsm_clone gives an equal and independent machine, fsm_merge places both operands' states side by side at the reported offsets, and fsm_move replaces one machine by another. fsm_removestate, fsm_compact_states, fsm_trim, fsm_shuffle, fsm_vacuum, fsm_mergestates, fsm_collate and subgraph extraction never change which strings are accepted from a state that remains, nor its end ids or eager outputs, other than by the removal or merging that was asked for.",
  ["histories", "inputs"], "every sequence of such edits on every automaton",
  "Tests call each edit on one or two machines; renumbering has to be consistent for every combination of start, end, edge, epsilon and metadata placement.",
  [L+"state.c", L+"clone.c", L+"merge.c", L+"mergestates.c", L+"trim.c", L+"shuffle.c", L+"vacuum.c", L+"collate.c", L+"subgraph.c", L+"consolidate.c"],
  [("renumbering of states in edges, start and metadata", L+"state.c"), ("bulk compaction", L+"state.c")],
  ["fsm_clone", "fsm_merge", "fsm_removestate", "fsm_compact_states", "fsm_trim", "fsm_shuffle"])

p("P06", "Equality and emptiness answer exactly",
  "For FSMs which have a start state, fsm_equal(a, b) is true exactly when the two machines accept the same set of strings, and fsm_empty is true exactly when the machine accepts no string; neither modifies its arguments. Both hold for deterministic and non-deterministic machines with any structure.",
  ["inputs"], "every pair of automata",
  "Tests check chosen equal and unequal pairs; a wrong answer on any pair breaks everything which relies on comparison, including other tests.",
  [L+"equal.c", L+"empty.c", L+"subtract.c", L+"walk/reachable.c"],
  [("emptiness of symmetric difference", L+"equal.c"), ("reachability of an end state", L+"empty.c")],
  ["fsm_equal", "fsm_empty"])

p("P07", "Execution accepts exactly the language",
  "fsm_exec on a DFA returns success with the reached end state exactly when following the input's bytes from the start state leads to an end state, for every byte value and input length. It reads the input at most once, one byte at a time, stopping at the first byte with no transition or at end of input, and rejects non-deterministic machines with an error rather than an answer.",
  ["inputs"], "every DFA and every byte string",
  "Tests execute chosen strings; the guarantee is about every string and every byte, including NUL and bytes over 127.",
  [L+"exec.c", L+"getc.c", "src/adt/edgeset.c"],
  [("edge transition lookup on bitmap groups", "src/adt/edgeset.c"), ("single pass over the callback", L+"exec.c")],
  ["fsm_exec", "fsm_sgetc", "fsm_fgetc"])

p("P08", "End ids follow the accepted strings through every transformation",
  "If end ids are attached to end states, then after any sequence of union, determinise, epsilon removal, minimise, trim, clone and merge, executing any accepted string reports exactly the ids of the original end states which accept that string, sorted and without duplicates. The accessor and mutator functions (set, bulk set, get, count, iterate, remap, increment, union with disjoint ids) behave as operations on a set of ids per end state.",
  ["histories", "inputs"], "every assignment of ids to end states, every automaton and every order of operations",
  "Tests check fixed patterns; id tables are hash tables which grow and are rebuilt at many sizes, in every operation.",
  [L+"endids.c", L+"determinise.c", L+"minimise.c", L+"consolidate.c", L+"merge.c"],
  [("end id hash table with per-state sorted id lists", L+"endids.c"), ("carry over mappings in determinise and compaction", L+"endids.c")],
  ["fsm_endid_set", "fsm_endid_get", "fsm_endid_count", "fsm_mapendids", "fsm_increndids", "fsm_setendid"])

p("P09", "Eager outputs fire for exactly the patterns that matched",
  "For a set of patterns combined by fsm_union_repeated_pattern_group with ids, executing the determinised and minimised result on any input reports through the eager output callback, or through end ids, exactly the set of ids of the patterns which match that input under their anchoring. Determinisation, epsilon removal and minimisation never change the set of outputs reported for an input which can still match.",
  ["inputs", "histories"], "every small group of patterns, anchored or not, and every input string",
  "The existing cases are fixed lists of patterns and inputs; combinations of anchoring, repetition and shared prefixes are unbounded.",
  [L+"eager_output.c", L+"union.c", L+"epsilons.c", L+"determinise.c", L+"exec.c"],
  [("per-state eager output sets carried through subset construction", L+"eager_output.c"), ("unanchored start/end loops", L+"union.c")],
  ["fsm_union_repeated_pattern_group", "fsm_eager_output_set", "fsm_eager_output_get", "fsm_exec"])

p("P10", "Generated matches are real matches and cover every distinct path",
  "Every input produced by fsm_generate_matches is accepted by the machine, leads to the end state reported, is no longer than the given maximum and is not produced twice. Every end state which is reachable within the maximum length is produced by some input, and returning prune or halt from the callback only removes inputs.",
  ["inputs", "histories"], "every DFA, every length bound and every sequence of callback answers",
  "Tests look at a few DFAs and always continue.",
  [L+"gen.c", L+"trim.c"],
  [("depth first walk with distance pruning", L+"gen.c"), ("shortest end distances", L+"trim.c")],
  ["fsm_generate_matches"])

p("P11", "Required characters are exactly those in every match",
  "For every DFA which accepts something, fsm_detect_required_characters reports precisely the set of bytes which occur in every accepted string, and the count of them; for a DFA which accepts nothing it reports none. With a step limit it either gives that same answer or reports that the limit was reached with an empty set.",
  ["inputs", "configurations"], "every DFA and every step limit",
  "A list of about thirty regexes is checked; the property is over all graphs.",
  [L+"detect_required.c"], [("path enumeration with a shrinking candidate set", L+"detect_required.c")],
  ["fsm_detect_required_characters"])

p("P12", "Shortest path and example strings are right",
  "For every epsilon-free automaton, fsm_shortest returns a path of connected transitions from the given start to the goal with the least total cost under the caller's cost function over all labels, or a path without the goal when the goal can't be reached. fsm_example spells such a least-cost path from the start state under fsm_cost_legible (unprintable bytes as \\xHH) and returns its length, the empty string when there is no path; a shorter buffer gets a terminated prefix and is never overrun.",
  ["inputs"], "every automaton, goal state, cost function and buffer size",
  "Existing tests only print examples; minimality over all graphs is not tested.",
  [L+"shortest.c", L+"example.c", L+"cost/legible.c", "src/adt/priq.c", "src/adt/path.c"],
  [("Dijkstra with a linked priority queue", L+"shortest.c")],
  ["fsm_example", "fsm_shortest"])

p("P13", "Predicates, counters and walkers describe the actual graph",
  "fsm_isend, fsm_isdfa, fsm_iscomplete, fsm_isany, fsm_hasincoming, fsm_hasoutgoing, fsm_hasepsilons, fsm_epsilonsonly, fsm_hasnondeterminism, fsm_count, fsm_has, fsm_all, fsm_reachableall, fsm_reachableany, fsm_countedges, fsm_countstates, fsm_findmode and the state and edge walkers give exactly the answer the set of states and transitions added through the API implies. Adding a transition twice, by single byte or by any-byte, is the same as adding each byte once.",
  ["inputs", "histories"], "every graph, built by every order of construction calls",
  "Tests cover a few predicates on a few graphs.",
  [L+"edge.c", L+"state.c", L+"mode.c", L+"walk/iter.c", L+"walk/reachable.c", L+"pred/hasnondeterminism.c", L+"pred/isdfa.c", L+"pred/iscomplete.c", "src/adt/edgeset.c"],
  [("edge groups with symbol bitmaps", "src/adt/edgeset.c")],
  ["fsm_walk_edges", "fsm_countedges", "fsm_hasnondeterminism", "fsm_findmode", "fsm_addedge_literal", "fsm_addedge_any"])

p("P14", "The .fsm text format round-trips and its parser is total",
  "Printing any FSM in the fsm format (edge groups excepted) and parsing the text gives a machine with the same states, transitions, start, end states and end ids; with anonymous states, the same language and end ids. Parsing any text either yields an FSM or fails cleanly with a message and exit status 1, and a parsed file's machine is exactly the one its transitions, labels, escapes, start and end declarations and end ids describe.",
  ["inputs"], "every FSM, and every text over the format's tokens",
  "Only a corpus of well-formed files is parsed.",
  [L+"parser.c", L+"lexer.c", L+"print/fsm.c", "src/print/fsm.c"],
  [("LL(1) parser with a state-name table", L+"parser.c"), ("byte escaping on output", "src/print/fsm.c")],
  ["fsm_parse", "fsm_print"])

p("P15", "The DFA virtual machine agrees with direct execution",
  "For every DFA, a compiled virtual machine (either encoding, with or without optimisation) matches a buffer or file exactly when the DFA accepts those bytes. The answer is the same for the buffer and file interfaces and for every input length. A machine which isn't a DFA is refused, and so is a program too large for its encoding. A program saved and loaded again is the same program; one cut short is refused.",
  ["inputs", "configurations"], "every DFA, every compile option and every input",
  "Only selected regexes are executed through the VM; branch ranges, relocations and encodings depend on program size and shape.",
  [L+"vm.c", L+"vm/ir.c", L+"vm/vm.c", L+"vm/v1.c", L+"vm/v2.c", L+"print/ir.c"],
  [("IR range/error/dominant strategies", L+"print/ir.c"), ("instruction relaxation and encoding", L+"vm/vm.c")],
  ["fsm_vm_compile", "fsm_vm_compile_with_options", "fsm_vm_match_buffer", "fsm_vm_match_file"])

p("P16", "Generated C code accepts exactly the DFA's language",
  "Compiling the C source printed for a DFA (the switch-based and the goto-based output, for each of the supported ways of reading input) gives a matcher which accepts exactly the strings the DFA accepts, and reports the end ids of the state reached as the ambiguity mode asks (in modes which report ids, when end states carry some). Code given through the accept, reject, args and advance hooks takes the place of the default. It never reads outside the given input.",
  ["programs", "inputs", "configurations"], "every DFA, every output option and every input",
  "The retest suite runs fixed regexes with fixed strings; code generation has several strategies picked per state.",
  [L+"print/c.c", L+"print/vmc.c", L+"print/ir.c", L+"print.c", "src/print/c.c"],
  [("per-state IR strategies", L+"print/ir.c"), ("C printing of ranges, groups and escapes", L+"print/c.c")],
  ["fsm_print"])

p("P17", "Generated code in other languages accepts exactly the DFA's language",
  "The Go, Rust, LLVM IR, assembler (AT&T, NASM and Go), awk, shell and VM operation (vmops) output printed for a DFA is a valid program in that language which accepts exactly the strings the DFA accepts and reports the end ids the ambiguity mode asks for, where the output for the language carries them (and end states carry some). Combinations a language does not support are refused.",
  ["programs", "inputs", "configurations"], "every DFA, every supported output option and every input expressible in that language",
  "The retest suite runs fixed regexes for a subset of languages.",
  [L+"print/go.c", L+"print/rust.c", L+"print/llvm.c", L+"print/vmasm.c", L+"print/vmops.c", L+"print/awk.c", L+"print/sh.c"],
  [("VM op list to source", L+"print/go.c")], ["fsm_print"])

p("P18", "Descriptive outputs describe exactly the FSM's graph",
  "The dot, JSON, IR JSON and API-call outputs printed for an FSM describe exactly its states, transitions, start and end states, and are well-formed: the JSON parses, and compiling and running the API-call output rebuilds an equal machine.",
  ["inputs", "configurations"], "every FSM and every combination of print options that affects these outputs",
  "Outputs are only eyeballed or used through dot.",
  [L+"print/api.c", L+"print/dot.c", L+"print/json.c", L+"print/irjson.c", L+"print/ir.c", "src/print/dot.c", "src/print/json.c"],
  [("range collapsing of edge labels", L+"print/dot.c"), ("JSON emission", L+"print/json.c")], ["fsm_print"])

p("P19", "Ambiguity modes decide what generated code reports",
  "When code is generated for a DFA with end ids, the single-id modes report the id (the earliest under the earliest mode), the multiple mode reports all ids, and the no-id mode reports none. Under the error mode printing, in any language, fails with a conflict when some reachable end state carries more than one id, and never when no end state does; each such state is reported to the conflict hook once, with its ids and (for a machine without epsilon transitions) an example string which reaches it, and printing frees all it allocated. The other modes never report a conflict.",
  ["inputs", "configurations"], "every DFA with end ids, and every ambiguity mode and output language",
  "Tests print a few ambiguous cases.",
  [L+"print.c", L+"print/c.c", "include/fsm/print.h"],
  [("conflict detection and leaf hooks", L+"print.c")], ["fsm_print"])

p("P20", "PCRE patterns compile to the language PCRE defines",
  "For every pattern in the supported PCRE subset built from literals, dot, classes, groups, alternation, ?, *, +, counted repetition, comments and inline-flag forms, the compiled FSM accepts exactly the strings which that expression denotes, unanchored unless anchors say otherwise. Equivalent spellings compile to equal languages; forms libfsm does not support (such as lazy and possessive repetition) are refused, never compiled to something else.",
  ["programs", "inputs", "configurations"], "every pattern of the grammar and every input string, under every combination of compile flags",
  "A corpus of about five hundred patterns exists; nesting of operators is unbounded.",
  [R+"ast_compile.c", R+"ast_analysis.c", R+"ast_rewrite.c", R+"ast.c", R+"re.c", R+"dialect/pcre/parser.c", R+"dialect/pcre/lexer.c"],
  [("AST rewriting and analysis before linking", R+"ast_rewrite.c"), ("Thompson-style linkage", R+"ast_compile.c")],
  ["re_comp", "fsm_exec"])

p("P21", "Anchors mean start and end of the subject",
  "A pattern with ^, $, \\A, \\Z, \\z or RE_ANCHORED in any position, nested in groups, alternation and repetition, matches exactly the subjects which PCRE semantics give: ^ only at the beginning, $ at the end or before a final newline unless it is excluded by flags, and impossible placements match nothing. Patterns which cannot be compiled are reported unsupported, never compiled to a different language.",
  ["programs", "inputs", "configurations"], "every pattern with anchors at every position and every subject",
  "About a hundred anchor cases exist; the anchor analysis is a set of interacting rules over arbitrary nesting.",
  [R+"ast_analysis.c", R+"ast_compile.c", R+"ast.c"],
  [("nullability and anchoring flags propagated over the AST", R+"ast_analysis.c"), ("unanchored start/end loops and newline handling", R+"ast_compile.c")],
  ["re_comp", "re_is_anchored"])

p("P22", "Character classes, escapes and case folding denote the right bytes",
  "Each escape, POSIX-style class, bracket expression with ranges and negation, dot and case-insensitive letter accepts exactly the set of bytes its dialect defines, for every one of the 256 byte values. Ranges are inclusive and invalid ranges are rejected.",
  ["programs", "inputs"], "every class name, every escape, every byte and every range endpoint pair",
  "Tests sample classes with printable characters.",
  [R+"ast_compile.c", R+"ast.c", R+"class_name.c", R+"class/word.c", R+"dialect/pcre/lexer.c", R+"dialect/pcre/parser.c"],
  [("class tables", R+"class_name.c"), ("class and range AST nodes", R+"ast_compile.c")], ["re_comp"])

p("P24", "Native, glob, like, literal and sql dialects denote the right language",
  "For every pattern of the native, glob, SQL LIKE, literal and SQL dialects, the compiled FSM accepts exactly the strings which the dialect defines: wildcards match any bytes, single-character wildcards exactly one, escapes and other characters themselves, and matches are anchored to the whole subject where the dialect says so.",
  ["programs", "inputs"], "every pattern of each dialect and every subject",
  "A handful of patterns exist for each dialect.",
  [R+"dialect/native/parser.c", R+"dialect/glob/parser.c", R+"dialect/like/parser.c", R+"dialect/literal/parser.c", R+"dialect/sql/parser.c", R+"re.c"],
  [("dialect parsers to a common AST", R+"re.c")], ["re_comp"])

p("P25", "Parsing a regular expression is total, with accurate errors",
  "For every dialect, flag set and input text, compilation either succeeds or fails with an error which has a code and a message, leaving no crash, hang or sanitizer report. Byte positions in errors lie within the given pattern and delimit the offending part, and the result does not depend on how the pattern is supplied to the reader.",
  ["programs", "inputs"], "every short text over the metacharacters of each dialect",
  "Tests cover a few malformed patterns.",
  [R+"re.c", R+"perror.c", R+"strerror.c", R+"dialect/pcre/parser.c", R+"dialect/pcre/lexer.c"],
  [("error recovery actions in the grammar", R+"dialect/pcre/parser.c")], ["re_comp", "re_strerror", "re_perror"])

p("P26", "Literal and anchoredness detection agree with the language",
  "If re_is_literal reports a pattern as a literal of some anchoring category then the compiled pattern's language is exactly that literal string under that anchoring (the optional newline before the end which $ allows in PCRE is written as a trailing newline), and if it reports it as unsatisfiable then it matches nothing; a plain sequence of characters between optional anchors, with no flags set, is reported. If re_is_anchored says a pattern is anchored at an end then every match is at that end, and a pattern with an anchor at its very start or end is reported so. Patterns which do not compile give the same error from both.",
  ["programs", "inputs"], "every pattern and every input",
  "Tests list literal cases by hand.",
  [R+"re.c", R+"ast_analysis.c", R+"ast.c"], [("literal extraction over the AST", R+"re.c")], ["re_is_literal", "re_is_anchored"])

p("P27", "String sets match exactly the given strings",
  "For every set of strings and anchoring flags, re_strings (or the builder interface) gives a DFA which accepts exactly the subjects equal to, starting with, ending with or containing one of the strings, and reports exactly the end ids of the strings that matched in a way the anchoring allows.",
  ["inputs", "configurations"], "every set of byte strings and every flag combination",
  "A few word lists are tested.",
  [R+"ac.c", R+"re_strings.c"], [("trie with failure links", R+"ac.c")], ["re_strings", "re_strings_add_raw", "re_strings_build"])

p("P28", "Group interpolation substitutes exactly and never overruns",
  "re_interpolate_groups replaces each group reference in the format by the group's text, with group 0 the whole match and missing groups as specified, copies all other text unchanged, and reports malformed references as errors. It writes at most the given length including the terminator and reports failure when the result would not fit.",
  ["inputs", "configurations"], "every format string over its metacharacters, every number of groups and every buffer size",
  "A fixed table of cases exists.",
  [R+"re_interpolate_groups.c"], [("bounded copying", R+"re_interpolate_groups.c")], ["re_interpolate_groups"])

p("P29", "Printing a regex AST and reparsing it gives an equal language",
  "For every regular expression accepted by a dialect, printing its AST as PCRE gives text which compiles to the same language, and the tree, dot and ABNF outputs are produced without failure.",
  ["programs"], "every pattern",
  "PCRE output is hardly tested.",
  [R+"print/pcre.c", R+"print/abnf.c", R+"print/dot.c", R+"print/tree.c", "src/print/pcre.c"],
  [("operator grouping and escaping on output", R+"print/pcre.c")], ["ast_print"])

p("P30", "Conversion of an FSM to a regex preserves the language",
  "For every FSM, the regular expression derived from it by state elimination denotes exactly the FSM's language.",
  ["inputs"], "every automaton",
  "Not covered by tests beyond examples.",
  [R+"ast_new_from_fsm.c"], [("generalised NFA state elimination", R+"ast_new_from_fsm.c")], ["fsm -l pcre", "ast_new_from_fsm"])

p("P31", "Containers behave as the abstract data types they implement",
  "State sets, edge sets, tuple sets, interned state sets, id maps, priority queues, queues and bitmaps behave as mathematical sets, maps, priority queues and sequences under every sequence of operations and at every size, including across growth and iteration.",
  ["histories"], "every sequence of operations up to a depth, over small key domains and at sizes across growth thresholds",
  "Unit tests run chosen or random sequences.",
  ["src/adt/stateset.c", "src/adt/edgeset.c", "src/adt/internedstateset.c", "src/adt/idmap.c", "src/adt/priq.c", "src/adt/queue.c", "src/adt/bitmap.c"],
  [("sorted arrays, singleton encoding, grouped bitmaps, open addressing", "src/adt/edgeset.c")],
  ["state_set_add", "edge_set_add", "interned_state_set_intern_set", "idmap_set", "priq_push"])

p("P32", "Allocation failure is reported, never crashes or corrupts",
  "If an allocation made through an FSM's allocator fails at any point in an operation, whether that one alone or it and every later one, then either the operation reports failure, or it succeeds with the result it would have had; it never crashes, corrupts memory, or frees anything twice. Machines it only reads are unchanged, and every machine the operation did not free can still be used and freed. (A machine it was modifying may be left part-way.)",
  ["fault_sequences"], "every allocation index at which the allocator can fail, in every operation",
  "Tests never fail an allocation.",
  [L+"fsm.c", L+"state.c", L+"determinise.c", L+"minimise.c", L+"union.c", L+"walk2.c", L+"endids.c", "src/adt/edgeset.c", "src/adt/alloc.c"],
  [("checked allocation through f_malloc and friends", "src/adt/alloc.c")], ["fsm_determinise", "fsm_minimise", "fsm_union", "fsm_clone"])

p("P33", "Memory goes through the caller's allocator and is all released",
  "Operations on FSMs made with a caller-supplied allocator return every block they obtained from that allocator to the same allocator exactly once, also when they fail because an allocation failed: after all machines are freed nothing remains allocated, and no block is overrun, or released by another means.",
  ["histories", "inputs"], "every operation on every machine",
  "Tests use the default allocator and do not check leaks.",
  ["src/adt/alloc.c", L+"fsm.c", L+"union.c", L+"determinise.c", L+"minimise.c", L+"consolidate.c", L+"reverse.c"],
  [("allocator passed down through every container", "src/adt/alloc.c")], ["fsm_new", "fsm_free"])

p("P34", "Independent machines can be used concurrently",
  "The library keeps no hidden shared mutable state: interleaving operations on unrelated FSMs, regexes and matchers in any order gives each the same result as running it alone. Nested use from inside a callback gives the same results too. lx, which builds its zones with several threads under -C, gives the output it gives with one whatever way they are scheduled.",
  ["schedules"], "every interleaving of two operations, at conflicting memory accesses and at callback and allocation points up to a preemption bound, and of lx's threads",
  "All tests are single threaded and sequential.",
  [L+"exec.c", L+"fsm.c", R+"re.c", R+"ast.c", L+"determinise.c"],
  [("all state held in the caller's objects", L+"fsm.c")], ["re_comp", "fsm_exec", "fsm_determinise", "fsm_print"])

p("P35", "The command line tools do what their options say",
  "The fsm and re programs' exit status and output reflect the operation asked for: the set operations, transformations, predicates, queries, match execution and examples agree with the library's semantics on the machines given, and errors exit non-zero.",
  ["programs", "configurations", "inputs"], "every combination of operation and option on small machines and inputs",
  "CLI tests use fixed command lines.",
  ["src/fsm/main.c", "src/re/main.c"], [("option dispatch", "src/fsm/main.c")], ["fsm(1)", "re(1)"])

p("P36", "A generated lexer finds the longest match and the right token",
  "For every lx specification, the generated lexer splits any input into tokens by reading as far as some rule of the current zone can still match (one character of lookahead, without backtracking), taking the rule that matches there, switching zones as declared and skipping rules with no token, and reports an unrecognised input (nothing matches there) or the end of input exactly where that process stops. Ambiguous specifications are rejected.",
  ["programs", "inputs"], "every small lx specification and every input",
  "Existing tests only check positions for one lexer.",
  ["src/lx/print/c.c", "src/lx/ast.c", "src/lx/main.c", "src/lx/parser.c"],
  [("per-zone minimised DFA to a switch", "src/lx/print/c.c")], ["lx(1) generated code"])

p("P37", "Lexer positions and buffers describe the token's text exactly",
  "For every token, the reported start and end positions (byte, line and column) delimit exactly the text consumed for it, positions of consecutive tokens are consistent with counting bytes and newlines, and the token buffer contains exactly that text, for every input interface.",
  ["inputs", "configurations"], "every input to a generated lexer, over every getc interface and buffer mode",
  "One fixed lexer and a few inputs are tested.",
  ["src/lx/print/c.c", "src/lx/print/h.c"], [("position accounting in getc/ungetc", "src/lx/print/c.c")], ["lx_pos"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
